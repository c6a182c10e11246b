"""P11: merging decompositions gives their common subdivision and maps every object to its origin."""
import io
import contextlib
import itertools
import math

from bgem.polygons import merge

from .. import core, poly_harness as ph
from ..core import require
from ..planar import Planar, seg_dist

LEVEL = "model_checking"
ASSUMPTIONS = ["vertices of one drawing coincide with vertices or lie on segments of the other exactly or are at least 0.01 away",
               "the merging tolerance is above the rounding error of coordinates (1e-4 for drawings far from the origin)"]
TOL = 1e-6


def poly(*p):
    return list(zip(p, p[1:] + p[:1]))


def path(*p):
    return list(zip(p, p[1:]))


SHAPES = {
    "line": [((0.3, 1.1), (5.2, 3.3))],
    "box": poly((0, 0), (6, 0), (6, 4), (0, 4)),
    "tri": poly((1, 1), (5, 1.5), (2.5, 5)),
    "inner": poly((2, 1), (4, 1), (3, 3)),
    "cells": poly((0, 0), (6, 0), (6, 4), (0, 4)) + [((3, 0), (3, 4)), ((0, 2), (3, 2))],
    "cross": [((-1, 2.3), (7, 1.2)), ((2.2, -1), (3.7, 5))],
    "hole": poly((0, 0), (6, 0), (6, 4), (0, 4)) + poly((2, 1), (4, 1), (3, 3)),
    "dendrite": poly((0, 0), (6, 0), (6, 4), (0, 4)) + path((0, 0), (2, 1.5), (3.3, 2.9)),
    "free": [((0.3, 1.1), (5.2, 3.3)), (1.5, 3.5), (5.5, 0.5)],
    "grid": [((i, -0.5), (i, 4.5)) for i in (1.5, 4.5)] + [((-0.5, j), (6.5, j)) for j in (1.25, 3.25)],
    "far": poly((10, 10), (12, 10), (11, 12)),
    "diag": poly((0, 0), (6, 0), (6, 4), (0, 4)) + [((0, 0), (6, 4))],
    "anti": poly((0, 0), (6, 0), (6, 4), (0, 4)) + [((6, 0), (0, 4))],
    "touch": poly((3, 0), (6, 2), (3, 4), (0, 2)),
    "half": poly((0, 0), (3, 0), (3, 4), (0, 4)),
    "ext": poly((6, 1), (9, 1), (9, 3), (6, 3)),
    "over": [((-1, 0), (7, 0)), ((3, -1), (3, 5))],
    "empty": [],
}

# large drawings
LARGE = {
    "grid9": [((i - 0.5, -0.5), (i - 0.5, 9)) for i in range(1, 9)] + [((-0.5, j - 0.25), (9.5, j - 0.25)) for j in range(1, 9)],
    "grid8+": [((1.5 * i, -1.5), (1.5 * i, 8)) for i in range(7)] + [((-2, 1.5 * j), (10, 1.5 * j)) for j in range(6)],
    "boxes": [e for i in range(5) for j in range(5) for e in poly((2 * i, 2 * j), (2 * i + 1.25, 2 * j), (2 * i + 1.25, 2 * j + 1.25), (2 * i, 2 * j + 1.25))],
    "dots": [(0.75 * i + 0.0625, 0.75 * j + 0.125) for i in range(12) for j in range(12)],
    "nested": [e for k in range(1, 13) for e in poly((5 - 0.375 * k, 5 - 0.375 * k), (5 + 0.375 * k, 5 - 0.375 * k), (5 + 0.375 * k, 5 + 0.375 * k),
                                                     (5 - 0.375 * k, 5 + 0.375 * k))],
    "path": path(*[(0.125 * i, 2.0625 + (i * 7) % 5) for i in range(81)]),
    "comb": [((0.25 * i, 1), (0.25 * i, 7.5)) for i in range(41)],
}


# scale, displacement, merging tolerance (None for the default one)
VARIANTS = {"": (1, 0, 0, None), "far": (0.25, -700000.0, -1100000.0, 1e-4), "large": (1024, 0, 0, None), "loose": (1, 0, 0, 1e-3)}


def shape(name, variant=""):
    k, dx, dy, _ = VARIANTS[variant]
    mv = lambda p: (p[0] * k + dx, p[1] * k + dy)
    return [(mv(it[0]), mv(it[1])) if isinstance(it[0], tuple) else mv(it) for it in (SHAPES.get(name) or LARGE.get(name, []))]


def make(name, variant=""):
    pd = ph.fresh()
    for it in shape(name, variant):
        if isinstance(it[0], tuple):
            pd.add_line(*it)
        else:
            pd.add_point(it)
    return pd


def inside(ref, f, p):
    return ref.locate(p) == f


def interior_point(ref, f):
    """A point of face f at a distance from every segment."""
    best = None
    if f == "out":
        return (1e6, 1.1e6)
    cyc = ref.cycles[f]
    for h in cyc:
        a, b = ref._ends(h)
        pa, pb = ref.pts[a], ref.pts[b]
        l = math.dist(pa, pb)
        for t in (0.5, 0.31, 0.77):
            for e in (0.2 * l, 0.2, 0.05, 0.01, 0.002, 0.0004):
                n = (-(pb[1] - pa[1]) / l * e, (pb[0] - pa[0]) / l * e)
                q = (pa[0] + t * (pb[0] - pa[0]) + n[0], pa[1] + t * (pb[1] - pa[1]) + n[1])
                if ref.locate(q) == f:
                    d = min(seg_dist(q, ref.pts[x], ref.pts[y]) for x, y in ref.segs.values())
                    if d > 0.01 * l and d > 100 * TOL and len(ref.segs) > 100:
                        return q
                    if best is None or d > best[0]:
                        best = (d, q)
    require(best is not None, "no interior point")
    return best[1]


def check_maps(new, pds, all_maps):
    require(len(all_maps) == len(pds), "{} maps for {} drawings", len(all_maps), len(pds))
    ref, fmap = ph.check_subdivision(new, aspects=("faces", "links", "free"))
    probes = {pid: interior_point(ref, f) for f, pid in fmap.items()}
    for k, (pd, (m0, m1, m2)) in enumerate(zip(pds, all_maps)):
        old = ph.planar_of(pd)
        ofmap = ph.face_map(pd, old)
        for i, p in ref.pts.items():
            exp = [j for j, q in old.pts.items() if math.dist(p, q) < TOL]
            require(m0.get(i) == (exp[0] if exp else None), "drawing {}: point {} at {} is mapped to {} instead of {}", k, i, p,
                    m0.get(i), exp)
        require(set(m0) <= set(ref.pts), "drawing {}: map of points contains unknown points {}", k, set(m0) - set(ref.pts))
        for s, (a, b) in ref.segs.items():
            exp = [j for j, (x, y) in old.segs.items() if
                   seg_dist(ref.pts[a], old.pts[x], old.pts[y]) < TOL and seg_dist(ref.pts[b], old.pts[x], old.pts[y]) < TOL]
            require(m1.get(s) == (exp[0] if exp else None), "drawing {}: segment {} {}-{} is mapped to {} instead of {}", k, s,
                    ref.pts[a], ref.pts[b], m1.get(s), exp)
        require(set(m1) <= set(ref.segs), "drawing {}: map of segments contains unknown segments", k)
        for pid, q in probes.items():
            exp = ofmap[old.locate(q)]
            require(m2.get(pid) == exp, "drawing {}: polygon {} (around {}) is mapped to {} instead of {}", k, pid, q,
                    m2.get(pid), exp)
        require(set(m2) <= set(fmap.values()), "drawing {}: map of polygons contains unknown polygons", k)


def expected_union(names, variant):
    from fractions import Fraction as F
    from ..line_space import Ref
    r = Ref()
    fr = lambda p: (F(str(p[0])), F(str(p[1])))
    for n in names:
        for it in shape(n, variant):
            if isinstance(it[0], tuple):
                r.add_line(fr(it[0]), fr(it[1]))
            else:
                r.add_point(fr(it))
    return r


def evaluate(case, out):
    variant = ""
    if "@" in case[-1]:
        variant = case[-1][1:]
        case = case[:-1]
    names = case
    tol = VARIANTS[variant][3]
    union = expected_union(names, variant)
    if union.min_gap() < 0.01:
        out.extra["skipped, close features"] += 1
        return
    pds = [make(n, variant) for n in names]
    keep = [ph.oriented_geom(p) for p in pds]
    with contextlib.redirect_stdout(io.StringIO()):
        new, maps = merge.intersect_decompositions(pds) if tol is None else merge.intersect_decompositions(pds, tol)
    r = lambda p: (round(float(p[0]), 6) + 0.0, round(float(p[1]), 6) + 0.0)
    segs = tuple(sorted(tuple(sorted((r(a), r(b)))) for a, b in union.sorted_edges()))
    got = ph.geom(new)
    require(got[0] == segs, "segments of the common subdivision differ from the union of the drawings: extra {} missing {}",
            [s for s in got[0] if s not in segs][:3], [s for s in segs if s not in got[0]][:3])
    require(len(new.points) == len(union.points), "{} points instead of {}", len(new.points), len(union.points))
    check_maps(new, pds, maps)
    if len(pds) > 1:
        require([ph.oriented_geom(p) for p in pds] == keep, "merging changed an input drawing")
    out.states += 1
    out.transitions += 1
    out.outcomes.add(core.canon_hash((got, [sorted((k, sorted(m.items())) for k, m in enumerate(mm)) for mm in maps]))[:6])


def explore(ctx):
    names = list(SHAPES)
    cases = [[n] for n in names] + [list(c) for c in itertools.product(names, repeat=2)]
    cases += [list(c) for c in itertools.product(names, repeat=3)]
    for v in VARIANTS:
        if v:
            cases += [list(c) + ["@" + v] for n in (1, 2) + (() if ctx.quick else (3,)) for c in itertools.product(names, repeat=n)]
            if ctx.quick:
                cases += [list(c) + ["@" + v] for c in itertools.product(names[1:12:2], repeat=3)]
    # drawings of one shape cut to pieces: many drawings
    many = [["box", "line", "tri", "inner", "cross"], ["free", "box", "line", "far", "cross", "diag", "half"], ["half", "ext", "touch", "box", "over", "far"],
            ["tri", "tri", "tri", "tri"], ["line", "free", "far", "empty", "ext", "inner", "box", "half", "diag", "anti"]]
    cases += [list(p) for m in many for p in ([m, m[::-1], m[2:] + m[:2]] if ctx.quick else itertools.islice(itertools.permutations(m), 0, None, max(1, math.factorial(len(m)) // 60)))]
    ctx.each("merge", cases, evaluate, chunk=16)
    big = [[n] for n in LARGE] + [list(c) for c in itertools.product(LARGE, repeat=2)] + [[a, "cross", b] for a in LARGE for b in LARGE]
    ctx.bound("up to 10 drawings; {} large drawings alone, in pairs and with a small one in between".format(len(LARGE)))
    ctx.each("merge", big if not ctx.quick else [c for c in big if len(c) < 3 or c[0] < c[2]], evaluate, chunk=1)


def replay(case):
    evaluate(case["case"], core.Out())
