"""B11: convex hull and the smallest bounding rectangle of points."""
import itertools
import math

import numpy as np
from bgem.bspline import bspline_approx as ba

from .. import core
from ..core import require

LEVEL = "model_checking"
ASSUMPTIONS = ["at least three points not on one line"]
MAPS = {
    "id": (1, 0, 0, 1, 0, 0),
    "rot": (0.8, -0.6, 0.6, 0.8, 10.0, -7.0),
    "irr": (math.sqrt(2), -math.pi / 3, 0.3, math.e / 2, 1e3, 1e3),
    "small": (1e-4, 2e-5, -3e-5, 1.5e-4, 0.1, 0.7),
    "mirror": (0, 3, 3, 0, -1, 2),
    "far": (1, 0, 0, 1, -700000, -1100000),
    "far irr": (0.8, -0.6, 0.61, 0.8, -700000.1, -1100000.7),
    "large": (2e4, -1e4, 1e4, 2e4, 3e5, 5e6),
}


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def hull_ref(pts):
    """Strict vertices of the hull, counter clockwise, integer points (monotone chain)."""
    pts = sorted(set(pts))
    res = []
    for seq in (pts, pts[::-1]):
        h = []
        for p in seq:
            while len(h) > 1 and cross(h[-2], h[-1], p) <= 0:
                h.pop()
            h.append(p)
        res += h[:-1]
    return res


def on_segment(a, b, p):
    return cross(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def min_area(h):
    """Exhaustive over directions of hull edges; returns the area."""
    best = float("inf")
    for a, b in zip(h, h[1:] + h[:1]):
        d = (b[0] - a[0], b[1] - a[1])
        n2 = d[0] ** 2 + d[1] ** 2
        s = [p[0] * d[0] + p[1] * d[1] for p in h]
        t = [p[1] * d[0] - p[0] * d[1] for p in h]
        best = min(best, (max(s) - min(s)) * (max(t) - min(t)) / n2)
    return best


def evaluate(case, out):
    pts, mp = [tuple(p) for p in case[0]], MAPS[case[1]]
    ref = hull_ref(pts)
    if len(ref) < 3:
        return
    m = lambda p: (mp[0] * p[0] + mp[1] * p[1] + mp[4], mp[2] * p[0] + mp[3] * p[1] + mp[5])
    arr = np.array([m(p) for p in pts], dtype=float)
    keep = arr.copy()
    size = np.ptp(arr, axis=0).max()
    hull = np.array(ba.convex_hull_2d(arr))
    require(np.array_equal(arr, keep), "given points were changed")
    require(np.array_equal(hull[0], hull[-1]), "hull is not closed: {}", hull.tolist())
    # every hull point is one of the points, on the boundary of the hull
    idx = []
    for p in hull[:-1]:
        d = np.abs(arr - p).max(axis=1)
        i = int(np.argmin(d))
        require(d[i] == 0, "hull point {} is not one of the points", p.tolist())
        idx.append(pts[i])
    require(set(ref) <= set(idx), "extreme points {} are not in the hull", sorted(set(ref) - set(idx)))
    exact = case[1] in ("id", "mirror", "far")
    tol = 0 if exact else 1e-9 * size * size
    for p in idx:
        require(any(on_segment(a, b, p) for a, b in zip(ref, ref[1:] + ref[:1])), "point {} of the hull is inside", p)
    # a convex cycle: the boundary visited once, in one direction
    order = {p: k for k, p in enumerate(ref)}
    seq = [order[p] for p in idx if p in order]
    k = seq.index(0)
    seq = seq[k:] + seq[:k]
    require(seq in ([*range(len(ref))], [0] + [*range(len(ref) - 1, 0, -1)]), "extreme points are not in order: {} {}", idx, ref)
    require(len(set(idx)) == len(idx), "hull contains a point twice: {}", idx)
    rect = np.array(ba.min_bounding_rect(hull.copy()))
    require(rect.shape == (4, 2), "rectangle of shape {}", rect.shape)
    e = [rect[(i + 1) % 4] - rect[i] for i in range(4)]
    scale = size + 1e-6 * np.abs(arr).max()      # rounding of coordinates
    eps = 1e-9 * scale
    require(np.allclose(e[0], -e[2], rtol=0, atol=eps) and abs(e[0].dot(e[1])) <= 1e-9 * scale * scale, "{} is not a rectangle", rect.tolist())
    # corners order used by the surface: (0,1) (0,0) (1,0) (1,1), counter clockwise
    require(e[0][0] * e[1][1] - e[0][1] * e[1][0] > 0, "rectangle is not counter clockwise")
    a, b = e[1], -e[0]
    w = (arr - rect[1]).dot(np.array([a / a.dot(a), b / b.dot(b)]).T)
    # the direction of a short side is known up to rounding of coordinates
    short, long = sorted((np.linalg.norm(a), np.linalg.norm(b)))
    wt = 1e-6 + 1e-15 * np.abs(arr).max() * long / short ** 2
    require(w.min() > -wt and w.max() < 1 + wt, "point is out of the rectangle by {}", max(-w.min(), w.max() - 1))
    area = np.linalg.norm(a) * np.linalg.norm(b)
    best = min_area([m(p) for p in ref])
    require(abs(area - best) <= 1e-6 * best, "area of the rectangle is {}, the smallest is {}", area, best)
    out.states += 1
    out.transitions += len(idx)
    out.outcomes.add((len(ref), len(idx), case[1]))


def large_sets(ctx):
    """Point sets with many extreme points, many points on the boundary or many points inside."""
    for n in ctx.pick((12, 50, 160), (12, 50, 160, 600)):
        circ = [(round(1e5 * math.cos(2 * math.pi * i / n)), round(1e5 * math.sin(2 * math.pi * i / n))) for i in range(n)]
        yield circ
        yield circ + [(x // 2, y // 3) for x, y in circ]
        yield [(i, i * i) for i in range(n)]
        yield [(i, (i * i) % 31) for i in range(n)]
        yield [((i * 7919) % 1009, (i * 104729 + 5) % 997) for i in range(n)]
        yield [(round(20 * i * math.cos(0.9 * i)), round(20 * i * math.sin(0.9 * i))) for i in range(n)]
        k = int(math.sqrt(n))
        yield [(x, y) for x in range(k) for y in range(k)]
        yield [(i, 0) for i in range(n)] + [(0, i) for i in range(1, n)]
        yield [(i, (i > n // 2) * 3) for i in range(n)]
    # needles
    for a in (10, 1000, 100000):
        yield [(0, 0), (a, 1), (2 * a, 3), (a, 0), (3 * a, 4)]
        yield [(0, 0), (a, a + 1), (2 * a, 2 * a), (2 * a + 1, 2 * a)]


def explore(ctx):
    g3 = [(x, y) for x in range(3) for y in range(3)]
    g4 = [(x, y) for x in range(4) for y in range(4)]
    cases = []
    for mp in MAPS:
        for n in range(3, 10):
            for s in itertools.combinations(g3, n):
                cases.append([list(map(list, s)), mp])
        if mp in ctx.pick(("id", "irr"), MAPS):
            for n in range(3, ctx.pick(6, 8)):
                for s in itertools.combinations(g4, n):
                    cases.append([list(map(list, s)), mp])
    # orders and repetitions of the points
    for mp in ("id", "irr"):
        for s in itertools.combinations([(0, 0), (3, 1), (1, 4), (2, 2), (4, 5), (0, 5)], 4):
            for p in itertools.permutations(s):
                cases.append([list(map(list, p)), mp])
                cases.append([list(map(list, p + p[:2])), mp])
    large = [[[list(p) for p in (pts if o == 0 else pts[::-1] if o == 1 else pts[len(pts) // 3:] + pts[:len(pts) // 3])], mp]
             for pts in large_sets(ctx) for mp in MAPS for o in range(3)]
    ctx.bound("{} sets of up to {} points".format(len(large), max(len(c[0]) for c in large)))
    ctx.each("large", large, evaluate, chunk=16)
    ctx.bound("all subsets of a 3 x 3 and all subsets up to {} points of a 4 x 4 grid under {} affine maps, all orders and repetitions of 4 points".format(
        ctx.pick(5, 7), len(MAPS)))
    ctx.each("hull", cases, evaluate, chunk=128)


def replay(case):
    evaluate(case["case"], core.Out())
