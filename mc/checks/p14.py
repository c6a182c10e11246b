"""P14: crossings closer than the snapping tolerance are merged into a valid drawing near the drawn lines."""
import itertools
import math

from .. import core, poly_harness as ph
from ..core import require
from ..planar import cross, proper_cross, seg_dist
from . import p08
from .p05 import snapshot
from bgem import undo
from bgem.polygons import polygons as pg

LEVEL = "model_checking"
ASSUMPTIONS = ["the last line crosses the narrow features at an angle of at least 20 degrees",
               "deviation up to 2 tolerances from the drawn lines is accepted"]
TOL = 0.01


# narrow pairs of lines: gaps from 0.3 to 2.5 tolerances, parallel, wedges, thin crosses
def pairs():
    for g in (0.3, 0.6, 0.9, 1.1, 1.6, 2.5):
        w = g * TOL
        yield [((0, 0), (10, 0)), ((0.5, w), (9.5, w))]
    for g in (0.02, 0.05, 0.1):
        yield [((0, 0), (10, 0)), ((0, 0), (10, g))]            # wedge from a common vertex
        yield [((0, 0), (10, g)), ((0, g), (10, 0))]            # thin cross
        yield [((0, 0), (5, g)), ((5, g), (10, 0)), ((0, 0), (10, 0))]
    yield [((0, 0), (10, 0)), ((0, 0), (10, 0.05)), ((0, 0), (10, -0.05))]
    yield [((0, 0), (10, 0)), ((0.5, 0.006), (9.5, 0.006)), ((0.7, 0.013), (9.3, 0.013))]


def crossers():
    for x in (0.9, 1.7, 2.3, 4.4, 5.0, 6.1, 9.0):
        for dx in (0.0, 2.0, -3.0):
            yield ((x + dx, 1.5), (x - dx, -1.4))
            yield ((x - dx, -1.4), (x + dx, 1.5))
        # ending close to the features
        yield ((x, 1.5), (x + 0.3, 0.003))
        yield ((x, 1.5), (x + 0.3, 0.02))


BASES = list(pairs())


def dist_to(lines, p):
    return min(seg_dist(p, a, b) for a, b in lines)


def samples(a, b, n=40):
    for i in range(n + 1):
        t = i / n
        yield (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))


def evaluate(case, out):
    base, lines, free, attr = case
    undo.setstack(undo.Stack())
    pg.disable_undo()
    pd = pg.PolygonDecomposition(tolerance=TOL)
    merge = getattr(pd, "merge_points", None)
    if merge:
        def counting(*args):
            out.extra["merged crossings"] += 1
            return merge(*args)
        pd.merge_points = counting
    if free:
        # points whose ids will be reused by the crossings
        extra = [pd.add_point((20 + i, 20)) for i in range(3)]
    all_lines = [tuple(map(tuple, l)) for l in BASES[base]]
    for a, b in all_lines:
        pd.add_line(a, b)
    if free:
        for p in extra:
            pd.delete_point(p)
    if attr == "boundary":
        class A:
            boundary = True
        for s in pd.segments.values():
            s.attr = A()
    for a, b in lines:
        a, b = tuple(a), tuple(b)
        if attr == "undo":
            pg.enable_undo()
            before = snapshot(pd)
            with undo.group("line"):
                pd.add_line(a, b)
            after = snapshot(pd)
            if undo.stack().undocount():
                undo.stack().undo()
                require(snapshot(pd) == before, "undo of drawing {}-{} did not restore the drawing", a, b)
                ph.check_subdivision(pd, aspects=("faces", "links", "free"))
                undo.stack().redo()
            require(snapshot(pd) == after, "redo of drawing {}-{} differs", a, b)
            pg.disable_undo()
        else:
            pd.add_line(a, b)
        out.transitions += 1
        all_lines.append((a, b))
        try:
            ph.check_subdivision(pd, aspects=("faces", "links", "free"))
        except core.Violation as v:
            raise core.Violation("after drawing the line {}-{}: {}".format(a, b, v.message))
        for p in pd.points.values():
            d = dist_to(all_lines, p.xy)
            require(d < 2 * TOL, "vertex {} is {} away from every drawn line", p, d)
        for s in pd.segments.values():
            for q in samples(s.vtxs[0].xy, s.vtxs[1].xy, 10):
                require(dist_to(all_lines, q) < 2 * TOL, "segment {} runs off the drawn lines", s)
        drawn = [(tuple(s.vtxs[0].xy), tuple(s.vtxs[1].xy)) for s in pd.segments.values()]
        for a1, b1 in all_lines:
            for q in samples(a1, b1):
                d = dist_to(drawn, q)
                require(d < 2 * TOL, "the line {}-{} is not drawn at {} (distance {})", a1, b1, q, d)
    out.states += 1
    out.outcomes.add(core.canon_hash(ph.geom(pd))[:6])


def in_sweep(tri, q, margin):
    """Point within the margin of the triangle."""
    if any(math.dist(a, b) > 1e-12 and seg_dist(q, a, b) < margin for a, b in zip(tri, tri[1:] + tri[:1])):
        return True
    c = [cross(a, b, q) for a, b in zip(tri, tri[1:] + tri[:1])]
    return abs(cross(*tri)) > 1e-9 and (min(c) > 0 or max(c) < 0)


def merge(case, out):
    """Direct call of merge_points for two points of a drawing: the second one is moved to the first or nothing is changed."""
    name, i, j, attrs = case
    undo.setstack(undo.Stack())
    pg.disable_undo()
    d = p08.build(name)
    pd = d.pd
    a, b = d.p[i], d.p[j]
    if attrs:
        for s in pd.segments.values():
            s.attr = "s{}".format(s.id)
    keep, drop = (a, b) if a.id < b.id else (b, a)
    ka, dr = tuple(keep.xy), tuple(drop.xy)
    xy = {p.id: tuple(float(x) for x in p.xy) for p in pd.points.values()}
    old = {frozenset(v.id for v in s.vtxs): s.attr for s in pd.segments.values()}
    new = {}
    for ends, att in old.items():
        e = frozenset(keep.id if v == drop.id else v for v in ends)
        if len(e) == 2:
            new.setdefault(e, []).append(att)
    before = snapshot(pd)
    pg.enable_undo()
    with undo.group("merge"):
        res = pd.merge_points(a, b)
    pg.disable_undo()
    out.transitions += 1
    got = {frozenset(v.id for v in s.vtxs): s.attr for s in pd.segments.values()}
    ph.check_subdivision(pd, aspects=("faces", "links", "free"))
    if drop.id in pd.points:
        require(res is b, "refused merge returned {} instead of the second point", res)
        require(snapshot(pd) == before, "refused merge changed the drawing")
        sweeps = [[ka, dr, xy[next(iter(e - {drop.id}))]] for e in old if drop.id in e] or [[ka, dr, dr]]
        nbs = {v for e in old if drop.id in e for v in e} | {keep.id}
        free = all(not in_sweep(t, xy[q], 0.1) for t in sweeps for q in xy if q not in nbs)
        free = free and not any(len({u, v} & {drop.id}) == 0 and (proper_cross(xy[u], xy[v], ka, dr, 1e-9)
                                or any(in_sweep(t, [(1 - k) * xy[u][m] + k * xy[v][m] for m in (0, 1)], 0.05)
                                       for k in (0.02, 0.1, 0.3, 0.5, 0.7, 0.9, 0.98) for t in sweeps)
                                or any(proper_cross(xy[u], xy[v], p, q, 1e-9) for t in sweeps for p, q in zip(t, t[1:] + t[:1]) if p != q))
                                for u, v in map(tuple, old))
        require(not free, "merging of points {} and {} with nothing in the way was refused", keep, drop)
        out.outcomes.add("refused")
    else:
        require(res is keep, "merge returned {} instead of the remaining point", res)
        require(set(got) == set(new), "segments after merge are {} instead of {}", sorted(map(sorted, got)), sorted(map(sorted, new)))
        require({p.id: tuple(p.xy) for p in pd.points.values()} == {k: v for k, v in xy.items() if k != drop.id}, "other points changed")
        for e, att in new.items():
            require(got[e] in att, "attribute of segment {} is {} instead of {}", sorted(e), got[e], att)
        for e, f in itertools.combinations(new, 2):
            require(not proper_cross(*[xy[v] for v in tuple(e) + tuple(f)]), "segments {} and {} cross after merge", sorted(e), sorted(f))
        for e in new:
            for q in pd.points:
                require(q in e or seg_dist(xy[q], *[xy[v] for v in e]) > 1e-9, "segment {} passes point {} after merge", sorted(e), q)
        after = snapshot(pd)
        pg.enable_undo()
        undo.stack().undo()
        require(snapshot(pd) == before, "undo of the merge did not restore the drawing")
        undo.stack().redo()
        require(snapshot(pd) == after, "redo of the merge differs")
        pg.disable_undo()
        out.outcomes.add("merged")
    out.states += 1


def judged(case):
    """An end point within tolerance of two lines meeting at a small angle is moved along them: not judged."""
    base = BASES[case[0]]
    lines = list(base)
    for l in case[1]:
        for p in l:
            near = [m for m in lines if seg_dist(p, *m) < 2 * TOL]
            for m, n in itertools.combinations(near, 2):
                if abs(m[0][1] - m[1][1]) > 1e-9 or abs(n[0][1] - n[1][1]) > 1e-9:
                    return False
        lines.append(l)
    return True


def explore(ctx):
    cases = []
    cr = list(crossers())
    for b in range(len(BASES)):
        for c in cr:
            for free in (0, 1):
                for attr in (None, "boundary", "undo"):
                    cases.append([b, [c], free, attr])
        two = itertools.permutations(cr, 2)
        two = [t for t in two if abs(t[0][0][0] - t[1][0][0]) > 0.2]
        for t in two[::ctx.pick(5, 1)]:
            cases.append([b, list(t), 0, None])
    cases = [c for c in cases if judged(c)]
    ctx.each("close", cases, evaluate, chunk=16)
    pairs_ = []
    for n, (pts, ops) in p08.DRAWINGS.items():
        both = list(itertools.permutations(range(len(pts)), 2))
        if n in p08.LARGE:          # a regular selection
            both = both[::max(1, len(both) // ctx.pick(40, 300))]
        pairs_ += [[n, i, j, t] for i, j in both for t in (0, 1)]
    ctx.each("merge", pairs_, merge, chunk=8)


def replay(case):
    {"close": evaluate, "merge": merge}[case["space"]](case["case"], core.Out())
