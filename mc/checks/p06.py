"""P06: splitting and joining segments are inverse; attributes follow the objects."""
import itertools

from .. import core, poly_harness as ph, poly_space as ps
from ..core import require

LEVEL = "model_checking"
ASSUMPTIONS = ["the point where two segments are joined has no other segment"]

PTS = [(0, 0), (8, 0), (8, 7), (0, 7), (3, 2), (4, 4)]
EDGES = [(0, 1), (1, 2), (2, 0), (0, 4), (4, 1), (0, 3), (4, 5)]


def drawings():
    """All subsets of the candidate edges (planar), both orientations of the edge that will be split."""
    sk = ps.Skeleton("split", PTS, edges=EDGES, delp=False)
    for n in range(1, len(sk.edges) + 1):
        for sub in itertools.combinations(sk.edges, n):
            if any(f in sk.conf[e] for e in sub for f in sub):
                continue
            for k, e in enumerate(sub):
                yield [list(x) for x in sub], k


SK = ps.Skeleton("split", PTS, edges=EDGES, delp=False)


def make(edges, k, flip):
    d = ps.Driver(SK)
    for i in range(len(PTS)):
        d.apply(["pt", i])
    for n, (i, j) in enumerate(edges):
        s = d.apply(["seg", j, i] if (flip and n == k) else ["seg", i, j])
        d.pd.set_attr(s, "s%d" % n)
    for i, p in d.p.items():
        d.pd.set_attr(p, "p%d" % i)
    for i, p in d.pd.polygons.items():
        d.pd.set_attr(p, "r%d" % i)
    return d


def attrs(pd):
    return ({i: p.attr for i, p in pd.points.items()}, {i: s.attr for i, s in pd.segments.items()},
            {i: p.attr for i, p in pd.polygons.items()})


def ids(pd):
    return (sorted(pd.points), {i: s.point_ids() for i, s in pd.segments.items()}, sorted(pd.polygons))


def split_join(case, out):
    edges, k, flip, t, how = case
    d = make(edges, k, flip)
    pd = d.pd
    i, j = edges[k]
    seg = d.find_seg(i, j)
    a, b = seg.vtxs
    sides = [p.id for p in seg.polygons()]
    g0, a0, i0 = ph.geom(pd), attrs(pd), ids(pd)
    xy = [a.xy[0] + t * (b.xy[0] - a.xy[0]), a.xy[1] + t * (b.xy[1] - a.xy[1])]
    mid = pd.add_point(xy)
    require(abs(mid.xy[0] - xy[0]) + abs(mid.xy[1] - xy[1]) < 1e-9, "split point at {}", mid.xy)
    ph.check_subdivision(pd, aspects=("faces", "links", "free"))
    require(len(pd.segments) == len(edges) + 1 and len(pd.points) == len(PTS) + 1, "split created other objects")
    parts = [s for s, v in mid.segments()]
    require(len(parts) == 2 and {x.id for x in parts} <= set(pd.segments), "split point has {} segments", len(parts))
    require(sorted(x for p in parts for x in p.point_ids()) == sorted([a.id, b.id, mid.id, mid.id]), "parts are {}",
            [p.point_ids() for p in parts])
    require(seg in parts, "the split segment is not one of the parts")
    new = parts[1] if parts[0] is seg else parts[0]
    a1 = attrs(pd)
    require(a1[1][seg.id] == a0[1][seg.id] and new.attr == a0[1][seg.id], "parts have attributes {} {} instead of {}",
            seg.attr, new.attr, a0[1][seg.id])
    for dim in range(3):
        for o in a0[dim]:
            require(a1[dim].get(o) == a0[dim][o], "split changed an attribute of object {} of dimension {}", o, dim)
    require(set(a1[2]) == set(a0[2]), "split changed polygons")
    # both parts run in the direction of the original one, with the same polygons at sides
    for p in parts:
        require([q.id for q in p.polygons()] == sides, "a part has polygons {} at sides instead of {}",
                [q.id for q in p.polygons()], sides)
    first, second = (seg, new) if seg.vtxs[0].id == a.id else (new, seg)
    require(first.point_ids() == (a.id, mid.id) and second.point_ids() == (mid.id, b.id), "parts {} {} do not follow the segment {}",
            first.point_ids(), second.point_ids(), (a.id, b.id))
    # join back, either part kept
    if how == 0:
        pd._join_segments(mid, first, second)
        keep = first
    else:
        pd._join_segments(mid, second, first)
        keep = second
    require(mid.is_free() and mid.id in pd.points, "the middle point of a join is not free")
    pd.delete_point(mid)
    require(ph.geom(pd) == g0, "joining the parts gives {} instead of {}", ph.geom(pd), g0)
    ph.check_subdivision(pd, aspects=("faces", "links", "free"))
    require(keep.id in pd.segments and set(keep.point_ids()) == {a.id, b.id}, "joined segment connects {}", keep.point_ids())
    if keep is seg:
        require(ids(pd) == i0, "identifiers after split and join are {} instead of {}", ids(pd), i0)
        require(attrs(pd) == a0, "attributes after split and join are {} instead of {}", attrs(pd), a0)
    # the joined segment is found by crossing lines over its whole length
    for f in (0.25, 0.75):
        m = (a.xy[0] + f * (b.xy[0] - a.xy[0]), a.xy[1] + f * (b.xy[1] - a.xy[1]))
        q = pd.add_point(m)
        require(abs(q.xy[0] - m[0]) + abs(q.xy[1] - m[1]) < 1e-9 and not q.is_free(), "point on a joined segment is not connected")
    ph.check_subdivision(pd, aspects=("faces", "links", "free"))


def join_any(case, out):
    """Join two separately drawn segments in all four orientations, in all surroundings."""
    edges, o0, o1, order = case
    # chain 0 - 6 - 2 over an additional point
    d = ps.Driver(ps.Skeleton("join", PTS + [(3.2, 2.8)], edges=[], delp=False))
    for i in range(len(PTS) + 1):
        d.apply(["pt", i])
    d.p[6] = d.p[6]
    for i, j in edges:
        d.apply(["seg", i, j])
    c0 = d.apply(["seg", 0, 6] if o0 == 0 else ["seg", 6, 0])
    c1 = d.apply(["seg", 6, 2] if o1 == 0 else ["seg", 2, 6])
    pd = d.pd
    for s in pd.segments.values():
        pd.set_attr(s, "s%d" % s.id)
    polys = sorted(pd.polygons)
    if order == 0:
        pd._join_segments(d.p[6], c0, c1)
        keep, gone = c0, c1.id
    else:
        pd._join_segments(d.p[6], c1, c0)
        keep, gone = c1, c0.id
    require(keep.id in pd.segments and gone not in pd.segments, "joined segments are {}", sorted(pd.segments))
    require(keep.attr == "s%d" % keep.id, "joined segment lost its attribute")
    require(set(keep.point_ids()) == {d.p[0].id, d.p[2].id}, "joined segment connects {}", keep.point_ids())
    pd.delete_point(d.p[6])
    ph.check_subdivision(pd, aspects=("faces", "links", "free"))
    require(sorted(pd.polygons) == polys, "joining changed polygons")
    a, b = keep.vtxs
    for f in (0.25, 0.75):
        m = (a.xy[0] + f * (b.xy[0] - a.xy[0]), a.xy[1] + f * (b.xy[1] - a.xy[1]))
        q = pd.add_point(m)
        require(not q.is_free(), "point on a joined segment is not connected")
    ph.check_subdivision(pd, aspects=("faces", "links", "free"))


def explore(ctx):
    cases = [[e, k, f, t, h] for e, k in drawings() for f in (0, 1) for t in (0.5, 0.3) for h in (0, 1)]
    ctx.each("split-join", cases, split_join)
    sub = [[0, 1], [1, 2], [0, 4], [0, 3], [2, 3], [4, 1]]
    cases = [[list(c), o0, o1, order] for n in range(len(sub) + 1) for c in itertools.combinations(sub, n)
             for o0 in (0, 1) for o1 in (0, 1) for order in (0, 1)]
    ctx.each("join-orientations", cases, join_any)


def replay(case):
    {"split-join": split_join, "join-orientations": join_any}[case["space"]](case["case"], core.Out())
    return []
