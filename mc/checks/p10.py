"""P10: a drawing rebuilt from its stored points, segments and polygons is the same drawing."""
from .. import core, poly_harness as ph, poly_space as ps, line_space as ls, large
from ..core import require
from . import p01

LEVEL = "model_checking"
ASSUMPTIONS = ["stored wires list their segments in order; a wire starting with the same segment twice starts at the dendrite tip "
               "that is the out vertex of this segment (the format can not express the other case)"]
EVERY = 1
SPACES = [("tri+in", 99), ("five", 99), ("nested", 99), ("bowtie-full", 3), ("triple-full", 4), ("cells-full", 3), ("lolly-full", 3)]


def wire_ids(wire, start=0):
    hs = [(s.id, d) for s, d in wire.segments()]
    # a representable start: two different segments first, or a tip at the out vertex
    rots = [hs[k:] + hs[:k] for k in range(len(hs))]
    good = [r for r in rots if r[0][0] != r[1][0] or r[0][1] == 0]
    # the format finds the orientation from the vertex shared by the first two segments
    return [[h[0] for h in good[k % len(good)]] for k in range(start, start + 1)][0]


def store(pd, start):
    pts = [(p.id, (float(p.xy[0]), float(p.xy[1]))) for p in pd.points.values()]
    segs = [(s.id, s.point_ids()) for s in pd.segments.values()]
    polys = []
    for p in pd.polygons.values():
        outer = [] if p.is_outer_polygon() else wire_ids(p.outer_wire, start)
        holes = [wire_ids(w, start) for w in p.outer_wire.childs]
        polys.append((p.id, outer, holes, sorted(q.id for q in p.free_points)))
    return pts, segs, polys


def load(data):
    pts, segs, polys = data
    pd = ph.fresh()
    pmap, smap, polymap = {}, {}, {}
    for i, xy in pts:
        pmap[i] = pd._add_point(xy, pd.outer_polygon).id
    for i, (a, b) in segs:
        s = pd.make_segment((pmap[a], pmap[b]))
        smap[i] = s.id
        require([v.id for v in s.vtxs] == [pmap[a], pmap[b]], "made segment has other end points")
    for i, outer, holes, free in polys:
        p = pd.make_polygon([smap[s] for s in outer], [[smap[s] for s in h] for h in holes], [pmap[q] for q in free])
        polymap[i] = p.id
    pd.set_wire_parents()
    return pd, pmap, smap, polymap


def compare(pd, new, maps):
    pmap, smap, polymap = maps
    require(ph.oriented_geom(pd) == ph.oriented_geom(new), "points or segments differ")
    ph.check_subdivision(new, aspects=("faces", "links", "free", "nesting"))
    for s in pd.segments.values():
        exp = [polymap[p.id] for p in s.polygons()]
        got = [p.id for p in new.segments[smap[s.id]].polygons()]
        require(got == exp, "polygons next to segment {} are {} instead of {}", s.id, got, exp)


def check(sk, hist):
    d = ps.build(sk, hist)
    exp = d.expected_geom(hist)
    data = store(d.pd, len(hist))
    new, *maps = load(data)
    compare(d.pd, new, maps)
    # the copy can be edited as the original
    ops = sk.enabled(hist)
    if EVERY > 1:
        k = core.canon_hash(hist)[0] % EVERY
        ops = ops[k::EVERY]
    for op in ops:
        e = ps.build(sk, hist)
        new, pmap, smap, polymap = load(store(e.pd, 0))
        f = ps.Driver(sk, new)
        f.p = {i: new.points[pmap[p.id]] for i, p in e.p.items()}
        e.apply(op)
        f.apply(op)
        require(ph.geom(e.pd) == ph.geom(new), "operation {} on the rebuilt drawing gives a different drawing", op)
        ph.check_subdivision(new, aspects=("faces", "links", "free", "nesting"))
    # and is found by queries
    for i, p in d.p.items():
        q = load(data)[0]
        got = q.add_point(sk.points[i])
        require(len(q.points) == len(d.pd.points), "point {} is not found in the rebuilt drawing", i)
    for s in list(d.pd.segments.values())[:2]:
        q = load(data)[0]
        a, b = s.vtxs[0].xy, s.vtxs[1].xy
        q.add_point(0.6 * a + 0.4 * b)
        require(len(q.segments) == len(d.pd.segments) + 1, "segment {} is not found in the rebuilt drawing", s.id)
    return (exp, sorted(d.sk.abstract(hist)[1].values()) if sk.both else None)


def big(case, out):
    """Large drawings: the copy continues as the original."""
    steps = [0]

    def look(r):
        steps[0] += 1
        new, *maps = load(store(r.pd, steps[0]))
        compare(r.pd, new, maps)
        q = ls.Run(new)
        q.ref.points, q.ref.edges = set(r.ref.points), set(r.ref.edges)
        q.step(["line", [-1.25, -2.5], [2.25, 1.75]], verify=True)
        if len(q.ref.edges) > 4:
            q.step(["del", 3], verify=True)
        q.compare_geometry()
        ph.check_subdivision(new, aspects=("faces", "links", "free", "nesting"))
    large.walk(case, out, look)


def explore(ctx):
    global EVERY
    EVERY = ctx.pick(14, 1)
    ctx.bound("every state is rebuilt; 1 of {} continuing operations is executed on original and copy".format(EVERY))
    for name, depth in SPACES:
        p01.search(ctx, name, depth if ctx.quick else depth + 2, check=check)
    ctx.each("large", large.cases(ctx), big, chunk=1)


def replay(case):
    if case["space"] == "large":
        big(case["case"], core.Out())
        return
    check(ps.skeletons()[case["space"]], case["case"])
