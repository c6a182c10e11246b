"""P03: point location and snapping."""
import math

from .. import core, poly_harness as ph, line_space as ls, large
from ..core import require
from ..planar import seg_dist

LEVEL = "model_checking"
ASSUMPTIONS = ["queries are offered only where the distance to every vertex and segment differs from the tolerance by at least 4 percent"]


def L(a, b):
    return ["line", list(a), list(b)]


def poly(*pts):
    return [L(a, b) for a, b in zip(pts, pts[1:])]


# drawings with non convex, nested and degenerate polygons
DRAWINGS = {
    "empty": [],
    "point": [["pt", [1, 1]]],
    "segment": [L((0, 0), (2, 1))],
    "square": poly((0, 0), (2, 0), (2, 2), (0, 2), (0, 0)),
    "star": poly((0, 0), (2, 1), (4, 0), (3, 2), (4, 4), (2, 3), (0, 4), (1, 2), (0, 0)),
    "spikes": poly((0, 0), (4, 0), (2, 0.3), (4, 4), (1.5, 0.5), (0, 4), (0, 0)),
    "u-shape": poly((0, 0), (4, 0), (4, 4), (3, 4), (3, 1), (1, 1), (1, 4), (0, 4), (0, 0)),
    "hole": poly((0, 0), (4, 0), (4, 4), (0, 4), (0, 0)) + poly((1, 1), (3, 1), (2, 3), (1, 1)),
    "hole-dendrite": poly((0, 0), (4, 0), (4, 4), (0, 4), (0, 0)) + poly((1, 1), (3, 1), (2, 3), (1, 1)) + [L((3, 1), (3.5, 3)), L((2, 1), (2, 2))],
    "nested": poly((0, 0), (8, 0), (0, 8), (0, 0)) + poly((1, 1), (5, 1), (1, 5), (1, 1)) + poly((2, 2), (3, 2), (2, 3), (2, 2)),
    "bowtie": poly((0, 0), (2, 1), (4, 0), (4, 2), (2, 1), (0, 2), (0, 0)),
    "fan": [L((0, 0), p) for p in ((4, 0), (4, 0.5), (4, 1.5), (3, 3), (0, 4), (-3, 2), (-4, -1), (1, -4))],
    "lollies": poly((0, 0), (4, 0), (4, 4), (0, 4), (0, 0)) + [L((0, 0), (1, 1))] + poly((1, 1), (2, 1), (1, 2), (1, 1)) + [L((4, 4), (3, 3))],
    "cross": [L((0, 2), (4, 2)), L((2, 0), (2, 4)), L((0, 0), (4, 4))],
    "narrow": [L((0, 0), (4, 0)), L((0, 0.0015), (4, 0.0015))],
    "narrow-x": [L((0, 0), (4, 0.01)), L((0, 0.01), (4, 0))],
    "wedge": [L((0, 0), (4, 0)), L((0, 0), (4, 0.05)), L((0, 0), (4, -0.02))],
    "tip": [L((0, 0), (4, 0)), L((2, 0.0014), (2.5, 2))],
}


def queries(ref, tol):
    q = set()
    r = lambda p: q.add((round(p[0], 9), round(p[1], 9)))
    for x in range(-2, 18):
        for y in range(-2, 18, 1):
            r((2.5 * x + 0.13, 2.5 * y + 0.21))
    for v in ref.pts.values():
        for k in range(8):
            for d in (0.0, 0.5, 0.95, 1.05, 3.0):
                r((v[0] + d * tol * math.cos(k * math.pi / 4 + 0.1), v[1] + d * tol * math.sin(k * math.pi / 4 + 0.1)))
    for a, b in ref.segs.values():
        (x0, y0), (x1, y1) = ref.pts[a], ref.pts[b]
        l = math.hypot(x1 - x0, y1 - y0)
        n = (-(y1 - y0) / l, (x1 - x0) / l)
        for t in (0.03, 0.25, 0.5, 0.86):
            for s in (0.0, 0.4, 0.92, 1.06, 3.0, -0.4, -0.92, -1.06, -3.0):
                r((x0 + t * (x1 - x0) + s * tol * n[0], y0 + t * (y1 - y0) + s * tol * n[1]))
        # just inside the end points, beyond them
        for t in (0.6 * tol / l, 1.5 * tol / l, 1 - 0.6 * tol / l, 1 - 1.5 * tol / l, -0.5 * tol / l, -2 * tol / l, 1 + 2 * tol / l):
            for s in (0.3, -0.3):
                r((x0 + t * (x1 - x0) + s * tol * n[0], y0 + t * (y1 - y0) + s * tol * n[1]))
    return sorted(q)


BLOCKS = 8


def build(hist):
    r = ls.Run()
    for op in hist:
        if op[0] == "line":
            r.pd.add_line([c * ls.SCALE for c in op[1]], [c * ls.SCALE for c in op[2]])
        elif op[0] == "pt":
            r.pd.add_point([c * ls.SCALE for c in op[1]])
        elif op[0] == "tol":
            r.pd.set_tolerance(op[1])
    return r.pd


def drawing(name):
    if name.startswith("two:"):
        return [eval(s) for s in name[4:].split("|")]
    return DRAWINGS[name]


def evaluate(case, out):
    name, tol, pts = case[:3]
    out.states += 1
    pd0 = build(drawing(name))
    ref = ph.planar_of(pd0)
    if pts is None:
        pts = queries(ref, tol)[case[3]::BLOCKS]
    for q in pts:
        verify_query(name, tol, q, ref, out)


def verify_query(name, tol, q, ref, out):
    dv = sorted((math.dist(q, p), i) for i, p in ref.pts.items())
    ds = sorted((seg_dist(q, ref.pts[a], ref.pts[b]), s) for s, (a, b) in ref.segs.items())
    if any(0.96 * tol < d < 1.04 * tol for d, _ in dv + ds):
        return
    out.transitions += 1
    pd = build(drawing(name))
    pd.set_tolerance(tol)
    n_pt, n_seg = len(pd.points), len(pd.segments)
    before = ph.geom(pd)
    try:
        pt = pd.add_point(list(q))
        require(pd.points.get(pt.id) is pt, "the returned point is not in the drawing")
        near_v = [i for d, i in dv if d < tol]
        near_s = [s for d, s in ds if d < tol]
        if near_v:
            out.extra["snapped to a vertex"] += 1
            require(pt.id in near_v, "point within tolerance of vertices {} was identified with {}", near_v, pt.id)
            require(ph.geom(pd) == before, "identifying a point with a vertex changed the drawing")
        elif near_s:
            a, b = ref.segs[near_s[0]]
            pa, pb = ref.pts[a], ref.pts[b]
            l = math.dist(pa, pb)
            t = ((q[0] - pa[0]) * (pb[0] - pa[0]) + (q[1] - pa[1]) * (pb[1] - pa[1])) / l / l
            if len(near_s) == 1:
                out.extra["snapped to a segment"] += 1
                if t * l < 0.97 * tol:
                    require(pt.id == a, "point near the start of a segment is not identified with its vertex")
                elif (1 - t) * l < 0.97 * tol:
                    require(pt.id == b, "point near the end of a segment is not identified with its vertex")
                elif t * l > 1.03 * tol and (1 - t) * l > 1.03 * tol:
                    pr = (pa[0] + t * (pb[0] - pa[0]), pa[1] + t * (pb[1] - pa[1]))
                    require(math.dist(pt.xy, pr) < 1e-7, "point near a segment was placed at {} instead of {}", pt.xy, pr)
                    require(len(pd.points) == n_pt + 1 and len(pd.segments) == n_seg + 1,
                            "splitting one segment changed the counts from {} to {}", (n_pt, n_seg),
                            (len(pd.points), len(pd.segments)))
            else:
                out.extra["close to several segments"] += 1
                # some vertex on one of the close segments
                if pt.id not in ref.pts:
                    ok = [s for s in near_s if seg_dist(pt.xy, ref.pts[ref.segs[s][0]], ref.pts[ref.segs[s][1]]) < 1e-7]
                    require(ok, "point close to several segments was placed at {} off all of them", pt.xy)
                    require(len(pd.segments) == n_seg + 1, "counts of segments changed from {} to {}", n_seg, len(pd.segments))
                else:
                    require(any(pt.id in ref.segs[s] for s in near_s), "point was identified with an unrelated vertex")
        else:
            out.extra["free point"] += 1
            require(math.dist(pt.xy, q) < 1e-12, "free point was placed at {} instead of {}", pt.xy, q)
            require(len(pd.points) == n_pt + 1 and len(pd.segments) == n_seg, "a free point changed the counts")
            require(pt.is_free(), "a point far from everything is not free")
        ph.check_subdivision(pd, aspects=("faces", "free", "links"))
        # asking again changes nothing
        now = ph.geom(pd)
        again = pd.add_point(list(pt.xy))
        require(math.dist(again.xy, pt.xy) <= tol and ph.geom(pd) == now, "adding the same point again is not idempotent")
        out.traces += 1
        out.outcomes.add(core.canon_hash((name, now))[:6])
    except Exception as e:
        msg = core.describe(e)
        out.violations.append((len(name), "{} tol={} q={}".format(name, tol, q), "drawing {} tolerance {} point {}: {}".format(
            name, tol, q, msg), {"space": "snap", "case": [name, tol, [q]]}))


def big(case, out):
    """Points near vertices, near segments and off everything in large drawings."""
    r = ls.Run()
    for op, _ in large.history(case)[:large.built(case)]:
        r.step(op)
    pd, tol = r.pd, 0.01
    pd.set_tolerance(tol)
    for i, p in sorted(pd.points.items())[::2]:
        for k, (dx, dy) in enumerate(((0.5, 0.3), (-0.7, 0.2), (0.1, -0.8))):
            if (i + k) % 3:
                continue
            q = [p.xy[0] + dx * tol, p.xy[1] + dy * tol]
            n = len(pd.points), len(pd.segments)
            got = pd.add_point(q)
            require(got is p and (len(pd.points), len(pd.segments)) == n, "point within tolerance of vertex {} was identified with {} (counts {} to {})", i, got.id, n,
                    (len(pd.points), len(pd.segments)))
            out.transitions += 1
    segs = sorted(pd.segments)[::3]
    for j, i in enumerate(segs):
        s = pd.segments[i]
        a, b = ([float(x) for x in v.xy] for v in s.vtxs)
        l = math.dist(a, b)
        t = (0.31, 0.5, 0.83)[j % 3]
        nx, ny = -(b[1] - a[1]) / l, (b[0] - a[0]) / l
        pr = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
        if min(math.dist(pr, p.xy) for p in pd.points.values()) < 5 * tol:
            continue
        others = [u for u in pd.segments.values() if u is not s and seg_dist(pr, [float(x) for x in u.vtxs[0].xy], [float(x) for x in u.vtxs[1].xy]) < 10 * tol]
        if others:
            continue
        n = len(pd.points), len(pd.segments)
        for off in (6 * tol, -0.6 * tol):          # off everything, near the segment
            p = pd.add_point([pr[0] + off * nx, pr[1] + off * ny])
            out.transitions += 1
            if abs(off) > tol:
                require(math.dist(p.xy, (pr[0] + off * nx, pr[1] + off * ny)) < 1e-9 and p.is_free(), "point 6 tolerances off segment {} was placed at {}", i, p.xy)
                require((len(pd.points), len(pd.segments)) == (n[0] + 1, n[1]), "point off everything changed counts from {}", n)
            else:
                require(math.dist(p.xy, pr) < 1e-7, "point near segment {} was placed at {} instead of {}", i, p.xy, pr)
                require((len(pd.points), len(pd.segments)) == (n[0] + 2, n[1] + 1), "splitting one segment changed counts to {}", (len(pd.points), len(pd.segments)))
                require({tuple(round(float(x), 6) for x in y.vtxs[0].xy) for y, _ in p.segments()} | {tuple(round(float(x), 6) for x in y.vtxs[1].xy) for y, _ in p.segments()}
                        == {tuple(round(float(x), 6) for x in y) for y in (a, b, pr)}, "segment {} was not split at its point", i)
    ph.check_subdivision(pd, aspects=("faces", "free", "links"))
    out.states += 1


def explore(ctx):
    cases = [[n, tol, None] for n in DRAWINGS for tol in (0.01, 0.3)
             if not (tol == 0.3 and n in ("narrow", "narrow-x", "wedge", "tip"))]
    two = []
    for f in ls.first_lines(3):
        for g in ls.grid_lines(3, 3, both=False):
            two.append(["two:{}|{}".format(f, g), 0.01, None])
    cases += ctx.pick(two[::6], two)
    ctx.bound("{} drawings, {} of {} two line drawings".format(len(DRAWINGS), len(ctx.pick(two[::6], two)), len(two)))
    ctx.each("snap", [c + [b] for b in range(BLOCKS) for c in cases], evaluate, chunk=1, trace=False)
    ctx.each("large", large.cases(ctx), big, chunk=1)


def replay(case):
    if case["space"] == "large":
        big(case["case"], core.Out())
        return []
    out = core.Out()
    n, tol, pts = case["case"][:3]
    evaluate([n, tol, [tuple(p) for p in pts]] if pts else case["case"], out)
    return [v[2] for v in out.violations]
