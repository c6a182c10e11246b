"""Observation of a PolygonDecomposition and its comparison with the planar reference."""
from bgem.polygons.polygons import PolygonDecomposition
from bgem.polygons import polygons as pg
from bgem import undo

from .core import require
from .planar import Planar, rotations_equal, seg_dist


def fresh(**kw):
    undo.setstack(undo.Stack())
    pg.disable_undo()
    return PolygonDecomposition(**kw)


def planar_of(pd):
    pts = {i: (p.xy[0], p.xy[1]) for i, p in pd.points.items()}
    segs = {i: (s.vtxs[0].id, s.vtxs[1].id) for i, s in pd.segments.items()}
    used = {v for ab in segs.values() for v in ab}
    return Planar(pts, segs, [i for i in pts if i not in used])


def geom(pd):
    """Geometry up to identifiers: free points and unoriented segments by rounded coordinates."""
    r = lambda p: (round(float(p.xy[0]), 6) + 0.0, round(float(p.xy[1]), 6) + 0.0)
    segs = sorted(tuple(sorted((r(s.vtxs[0]), r(s.vtxs[1])))) for s in pd.segments.values())
    used = {x for s in segs for x in s}
    free = sorted(r(p) for p in pd.points.values() if r(p) not in used)
    return (tuple(segs), tuple(free))


def oriented_geom(pd):
    r = lambda p: (round(float(p.xy[0]), 6) + 0.0, round(float(p.xy[1]), 6) + 0.0)
    segs = sorted((r(s.vtxs[0]), r(s.vtxs[1])) for s in pd.segments.values())
    return (tuple(segs), geom(pd)[1])


def face_map(pd, ref):
    """Bijection reference face -> polygon id, or a violation."""
    require(ref.invalid() is None, "not a planar subdivision: {}", ref.invalid())
    fmap = {"out": pd.outer_polygon.id}
    require(pd.outer_polygon.id in pd.polygons, "outer polygon is not listed")
    for s, seg in pd.segments.items():
        require(seg.id == s, "segment listed as {} has id {}", s, seg.id)
        right, left = seg.polygons()
        for d, poly in ((0, left), (1, right)):
            require(poly is not None, "segment {} has no polygon on a side", s)
            require(poly.id in pd.polygons and pd.polygons[poly.id] is poly,
                    "polygon {} next to segment {} is not a polygon of the decomposition", poly.id, s)
            f = ref.face_of[(s, d)]
            old = fmap.setdefault(f, poly.id)
            require(old == poly.id, "one region of the plane is reported as polygons {} and {} (segment {})",
                    old, poly.id, s)
    for f in ref.faces:
        require(f in fmap, "a region bounded by {} belongs to no polygon", ref.face_vertices(f))
    require(len(set(fmap.values())) == len(fmap), "polygons {} stand for more regions of the plane",
            sorted(v for v in fmap.values() if list(fmap.values()).count(v) > 1))
    require(set(pd.polygons.keys()) == set(fmap.values()), "polygons {} instead of {}",
            sorted(pd.polygons.keys()), sorted(fmap.values()))
    return fmap


def half(seg, side):
    # implementation: (segment, left_side=1) walks from out vertex to in vertex with the face on the left
    return (seg.id, 0 if side == 1 else 1)


def check_subdivision(pd, ref=None, aspects=("faces", "links", "free", "nesting", "contains"), samples=None,
                      internal=True):
    """Full comparison; raises core.Violation."""
    ref = ref or planar_of(pd)
    fmap = face_map(pd, ref)
    for i, p in pd.points.items():
        require(p.id == i, "point listed as {} has id {}", i, p.id)
    if "faces" in aspects:
        for f, pid in fmap.items():
            poly = pd.polygons[pid]
            verts = [v.id for v in poly.vertices()]
            exp = ref.face_vertices(f)
            require(rotations_equal(verts, exp), "polygon {} has vertices {} instead of {} (counter clockwise)",
                    pid, verts, exp)
            require(poly.is_outer_polygon() == (f == "out"), "polygon {}: is_outer_polygon is {}", pid,
                    poly.is_outer_polygon())
            if f != "out":
                cyc = [half(s, d) for s, d in poly.outer_wire.segments()]
                require(rotations_equal(cyc, ref.cycles[f]), "outer boundary of polygon {} is {} instead of {}",
                        pid, cyc, ref.cycles[f])
            holes = sorted(sorted(half(s, d) for s, d in w.segments()) for w in poly.outer_wire.childs)
            exp = sorted(sorted(ref.cycles[c]) for c in ref.holes[f])
            require(holes == exp, "holes of polygon {} are {} instead of {}", pid, holes, exp)
    if "links" in aspects:
        for i, p in pd.points.items():
            inc = [(s.id, v) for s, v in p.segments()]
            exp = [(h[0], h[1]) for h in ref.out.get(i, [])]
            # around the point in clockwise direction
            require(rotations_equal(inc, exp[::-1]), "segments around point {} are {} instead of {}", i, inc, exp[::-1])
            require(p.is_free() == (not exp), "is_free of point {} is {}", i, p.is_free())
        for i, seg in pd.segments.items():
            same = ref.cycle_of[(i, 0)] == ref.cycle_of[(i, 1)]
            require(seg.is_dendrite() == same, "is_dendrite of segment {} is {}, its sides are on {} boundary", i,
                    seg.is_dendrite(), "the same" if same else "a different")
            for side in (0, 1):
                prev, prev_side = seg.previous(side)
                require(prev.next[prev_side] == (seg, side), "segment before {} on side {} is said to be {} (side {})",
                        i, side, prev.id, prev_side)
            for t in (0, 0.25, 1):
                xy = seg.parametric(t)
                a, b = (ref.pts[v] for v in ref.segs[i])
                scale = 1 + max(abs(c) for c in (*a, *b))
                require(all(abs(xy[k] - (1 - t) * a[k] - t * b[k]) <= 1e-9 * scale for k in (0, 1)),
                        "point {} of segment {} from {} to {} is {}", t, i, a, b, list(xy))
        for w in pd.decomp.wires.values():
            if not w.is_root():
                got = {x.id for x in w.neighbors()}
                exp = {s.wire[1 - side].id for s, side in w.segments()}
                require(got == exp, "wires along wire {} are {} instead of {}", w.id, sorted(got), sorted(exp))
    if "free" in aspects:
        for i, p in pd.points.items():
            if i in ref.free:
                require(p.poly is not None and p.poly.id == fmap[ref.free_face[i]],
                        "free point {} belongs to polygon {} instead of {}", i,
                        None if p.poly is None else p.poly.id, fmap[ref.free_face[i]])
        for f, pid in fmap.items():
            exp = sorted(i for i, g in ref.free_face.items() if g == f)
            got = sorted(p.id for p in pd.polygons[pid].free_points)
            require(got == exp, "free points of polygon {} are {} instead of {}", pid, got, exp)
    if "nesting" in aspects:
        desc = {f: {pid} for f, pid in fmap.items()}
        for f, pid in fmap.items():
            g = ref.parent_face(f)
            while g is not None:
                desc[g].add(pid)
                g = ref.parent_face(g)
        for f, pid in fmap.items():
            d = pd.polygons[pid].depth()
            require(d == 2 * ref.level(f), "depth of polygon {} is {} instead of {}", pid, d, 2 * ref.level(f))
            got = set(pd.get_childs(pid))
            require(got == desc[f], "polygons inside of polygon {} are {} instead of {}", pid, got, desc[f])
    if "contains" in aspects and samples:
        for xy in samples:
            if any(seg_dist(xy, ref.pts[a], ref.pts[b]) < 0.02 for a, b in ref.segs.values()):
                continue
            f = ref.locate(xy)
            for g, pid in fmap.items():
                got = pd.polygons[pid].contains_point(xy)
                require(bool(got) == (g == f), "polygon {} reports containing {}: {}", pid, xy, got)
    if internal:
        require(pd.decomp.check_consistency() is True, "check_consistency failed")
    return ref, fmap
