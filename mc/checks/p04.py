"""P04: the reported polygon change of every segment insertion and deletion is what happened."""
from bgem.polygons.decomp import PolygonChange as C

from .. import core, poly_harness as ph, poly_space as ps, large
from ..core import require
from . import p01

LEVEL = "model_checking"
ASSUMPTIONS = ["new segments do not cross existing ones (checked exactly before the operation is offered)"]
SPACES = [("tri+in", 99), ("five", 99), ("nested", 99), ("bowtie-full", 5), ("triple-full", 4), ("cells-full", 5), ("lolly-full", 4)]


def regions(pd):
    """polygon id -> (outer boundary, holes) as vertex coordinate cycles, from the reference faces."""
    ref = ph.planar_of(pd)
    fmap = ph.face_map(pd, ref)
    r = lambda i: (round(ref.pts[i][0], 6), round(ref.pts[i][1], 6))
    out = {}
    for f, pid in fmap.items():
        half = lambda c: frozenset((r(ref._ends(h)[0]), r(ref._ends(h)[1])) for h in ref.cycles[c])
        out[pid] = (half(f) if f != "out" else frozenset(), frozenset(half(c) for c in ref.holes[f]))
    level = {pid: ref.level(f) for f, pid in fmap.items()}
    area = {pid: (ref.face_area(f) if f != "out" else None) for f, pid in fmap.items()}
    hole_area = {pid: sum(ref.cycle_area(c) for c in ref.holes[f]) for f, pid in fmap.items()}
    parent = {pid: (None if f == "out" else fmap[ref.parent_face(f)]) for f, pid in fmap.items()}
    return out, level, area, hole_area, parent


def halves(reg):
    return reg[0].union(*reg[1]) if reg[1] else reg[0]


def check_report(pd, op, seg_polys_before, before, existed, d):
    change = pd.get_last_polygon_changes()
    require(isinstance(change, tuple) and len(change) == 3, "report is {}", change)
    kind, p0, p1 = change
    reg0, lev0, area0, hole0, par0 = before
    reg1, lev1, area1, hole1, par1 = regions(pd)
    ids0, ids1 = set(reg0), set(reg1)
    changed = {i for i in ids0 & ids1 if reg0[i] != reg1[i]}
    new, gone = ids1 - ids0, ids0 - ids1
    require(len(new) <= 1 and len(gone) <= 1 and not (new and gone), "polygons {} appeared and {} disappeared", new, gone)
    if new:
        n = new.pop()
        require(kind in (C.add, C.split), "a polygon appeared but the report is {}", change)
        require(p1 == n, "new polygon is {}, the report is {}", n, change)
        require(p0 in ids0, "original polygon {} of the report did not exist", p0)
        # region of the original polygon before = union of the two after
        a0 = area0[p0] if area0[p0] is not None else hole0[p0]
        a1 = area1[p0] if area1[p0] is not None else hole1[p0]
        require(abs(a0 - a1 - area1[n]) < 1e-6, "polygon {} was not cut from polygon {}", n, p0)
        require(not changed - {p0}, "polygons {} changed but are not reported ({})", changed - {p0}, change)
        inside = par1[n] == p0
        require((kind == C.add) == inside, "new polygon {} is {} the original one {} but the report is {}", n,
                "inside of" if inside else "beside", p0, kind)
    elif gone:
        g = gone.pop()
        require(kind in (C.remove, C.join), "a polygon disappeared but the report is {}", change)
        require(p1 == g, "polygon {} disappeared, the report is {}", g, change)
        require(p0 in ids1, "remaining polygon {} of the report does not exist", p0)
        a0 = area0[p0] if area0[p0] is not None else hole0[p0]
        a1 = area1[p0] if area1[p0] is not None else hole1[p0]
        require(abs(a1 - a0 - area0[g]) < 1e-6, "polygon {} was not joined to polygon {}", g, p0)
        require(not changed - {p0}, "polygons {} changed but are not reported ({})", changed - {p0}, change)
        inside = par0[g] == p0
        require((kind == C.remove) == inside, "removed polygon {} was {} the remaining one {} but the report is {}", g,
                "inside of" if inside else "beside", p0, kind)
    else:
        require(kind in (C.none, C.shape), "no polygon appeared or disappeared but the report is {}", change)
        if kind == C.none:
            require((p0, p1) == (None, None), "report {}", change)
            if existed:
                require(not changed, "inserting an existing segment changed polygons {}", changed)
            else:
                # an isolated segment: nothing but a degenerate hole appears or disappears
                lone = all(sum(1 for _ in d.p[i].segments()) == (1 if op[0] == "seg" else 0) for i in op[1:3])
                require(lone, "shape of polygons {} changed but the report is {}", changed, change)
        else:
            require(not existed, "inserting an existing segment is reported as {}", change)
            require(sorted(p0) == sorted(changed), "polygons {} changed shape but the report is {}", changed, change)
            require(p1 is None, "report {}", change)


def check(sk, hist):
    d = ps.build(sk, hist[:-1])
    op = hist[-1]
    if op[0] in ("pt", "delp"):
        d.apply(op)
    else:
        before = regions(d.pd)
        seg = d.apply(op)
        check_report(d.pd, op, None, before, False, d)
        if op[0] == "seg":
            # inserting it again, in both orientations, changes nothing and says so
            for i, j in ((1, 2), (2, 1)):
                before = regions(d.pd)
                again = d.pd.new_segment(d.p[op[i]], d.p[op[j]])
                require(again is seg or again.id == seg.id, "an existing segment was inserted twice")
                check_report(d.pd, op, None, before, True, d)
                require(len(d.pd.segments) == len(d.sk.abstract(hist)[1]), "an existing segment was duplicated")
    return (d.expected_geom(hist), sorted(d.sk.abstract(hist)[1].values()) if sk.both else None)


def initial():
    pd = ph.fresh()
    o = pd.outer_polygon.id
    require(pd.get_last_polygon_changes() == (C.add, o, o), "initial report is {}", pd.get_last_polygon_changes())


class Ends:
    """End points of the operation in a large drawing."""

    def __init__(self, p, q):
        self.p = {1: p, 2: q}


def big(case, out):
    """In large drawings every k-th segment is deleted and drawn again."""
    def look(r):
        pd = r.pd
        ids = sorted(pd.segments)
        for i in ids[::max(1, len(ids) // 3)]:
            s = pd.segments[i]
            a, b = s.vtxs
            e = Ends(a, b)
            before = regions(pd)
            pd.delete_segment(s)
            check_report(pd, ["del", 1, 2], None, before, False, e)
            before = regions(pd)
            if a.id in pd.points and b.id in pd.points:
                pd.new_segment(a, b)
                check_report(pd, ["seg", 1, 2], None, before, False, e)
            out.transitions += 2
    large.walk(case, out, look)


def explore(ctx):
    _, err = core.guarded(initial)
    if err:
        ctx.add_violation(0, "initial", err, {"space": "initial", "case": []})
    for name, depth in SPACES:
        p01.search(ctx, name, depth if ctx.quick else depth + 2, check=check)
    ctx.each("large", large.cases(ctx), big, chunk=1)


def replay(case):
    if case["space"] == "large":
        big(case["case"], core.Out())
    elif case["space"] == "initial":
        initial()
    else:
        check(ps.skeletons()[case["space"]], case["case"])
    return []
