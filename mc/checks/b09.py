"""B09: lines, planes, bilinear surfaces and curves through points."""
import itertools
import math

import numpy as np
from bgem.bspline import bspline_approx as ba

from .. import core
from ..core import require

LEVEL = "model_checking"
ASSUMPTIONS = ["curve_from_grid: consecutive points are distinct and there are more points than the degree"]
OVER = (0.0, 0.1, 0.5, 1.0)
TS = (0.0, 0.125, 0.3, 0.5, 0.8, 1.0)
COORD = {
    1: [(0,), (3,), (-2,), (0.25,)],
    2: [(0, 0), (3, -1), (-2, 5), (0.5, 0.25)],
    3: [(0, 0, 0), (1, 0, 0), (0, 2, 1), (-3, 1, 2), (0.5, 0.25, -1.5), (4, 4, 1)],
}


def given(pts, kind):
    if kind == "tuples":
        return [tuple(p) for p in pts]
    if kind == "lists":
        return [list(p) for p in pts]
    if kind == "array":
        return np.array(pts, dtype=float)
    if kind == "ints":
        return np.array([[int(x * 4) for x in p] for p in pts])
    return pts


def params(o):
    return sorted(set(TS) | {-o, 1 + o, -o / 2, 1 + o / 2})


def line(case, out):
    pts, o, kind = case
    arg = given(pts, kind)
    a, b = np.array(arg, dtype=float)
    keep = np.array(arg)
    c = ba.line(arg, o) if o else ba.line(arg)
    for t in params(o):
        out.transitions += 1
        v = c.eval(t)
        require(np.allclose(v, a + t * (b - a), rtol=0, atol=1e-9), "line {} overhang {} at {} is {} instead of {}", pts, o, t, list(v), list(a + t * (b - a)))
    require(tuple(c.basis.domain) == (-o, 1 + o), "domain of the line is {}", tuple(c.basis.domain))
    require(np.array_equal(keep, np.array(arg)), "given points were changed")
    out.states += 1


def surf(case, out):
    fn, pts, o, kind = case
    arg = given(pts, kind)
    p = np.array(arg, dtype=float)
    keep = np.array(arg)
    if fn == "plane":
        s = ba.plane_surface(arg, o) if o else ba.plane_surface(arg)
    else:
        s = ba.bilinear_surface(arg, o) if o else ba.bilinear_surface(arg)
    for u, v in itertools.product(params(o), repeat=2):
        out.transitions += 1
        if fn == "plane":
            e = p[0] + u * (p[1] - p[0]) + v * (p[2] - p[0])
        else:
            e = (1 - u) * (1 - v) * p[0] + u * (1 - v) * p[1] + u * v * p[2] + (1 - u) * v * p[3]
        r = s.eval(u, v)
        require(np.allclose(r, e, rtol=0, atol=1e-8), "{} surface {} overhang {} at {} is {} instead of {}", fn, pts, o, (u, v), list(r), list(e))
    require(tuple(s.u_basis.domain) == (-o, 1 + o) and tuple(s.v_basis.domain) == (-o, 1 + o), "domain is {}", tuple(s.u_basis.domain))
    require(np.array_equal(keep, np.array(arg)), "given points were changed")
    out.states += 1


def dist_to_curve(c, p):
    ts = np.linspace(0, 1, 81)
    d = np.linalg.norm(c.eval_array(ts) - p, axis=1)
    k = int(np.argmin(d))
    lo, hi = ts[max(0, k - 1)], ts[min(80, k + 1)]
    for _ in range(40):
        m1, m2 = lo + (hi - lo) * 0.4, hi - (hi - lo) * 0.4
        if np.linalg.norm(c.eval(m1) - p) < np.linalg.norm(c.eval(m2) - p):
            hi = m2
        else:
            lo = m1
    return min(d[k], np.linalg.norm(c.eval((lo + hi) / 2) - p))


def curve(case, out):
    dim, n, deg, tol, shape, far = case
    pts = []
    for i in range(n):
        t = i / (n - 1)
        if shape == "arc":
            q = (math.cos(2 * t), math.sin(2 * t), t)
        elif shape == "zigzag":
            q = (i, (i % 2) * 0.5, (i % 3) * 0.25)
        else:
            q = (t * 3, t * t, -t)
        pts.append(q[:dim])
    pts = np.array(pts) + (np.array([-700000, -1100000, 300.0])[:dim] if far else 0)
    keep = pts.copy()
    kw = {}
    if deg is not None:
        kw["degree"] = deg
    if tol is not None:
        kw["tol"] = tol
    c = ba.curve_from_grid(pts, **kw)
    eps = 1e-9 if far else 1e-12
    require(np.array_equal(keep, pts), "given points were changed")
    require(c.dim == dim and c.basis.degree == (deg or 3), "curve has dimension {} and degree {}", c.dim, c.basis.degree)
    require(np.allclose(c.eval(0.0), pts[0], rtol=0, atol=eps) and np.allclose(c.eval(1.0), pts[-1], rtol=0, atol=eps),
            "curve does not start and end at the end points")
    lim = math.sqrt(0.01 if tol is None else tol) * 1.01 + 1e-6
    for p in pts:
        d = dist_to_curve(c, p)
        out.transitions += 1
        require(d <= lim, "point {} is {} from the curve, tolerance {}", list(p), d, lim)
    out.states += 1
    out.outcomes.add(tuple(case))


def explore(ctx):
    lines = [[list(map(list, p)), o, k] for d in COORD for p in itertools.permutations(COORD[d], 2) for o in OVER for k in ("tuples", "lists", "array", "ints")]
    away = {d: [tuple(x + f for x, f in zip(p, (-700000, -1100000, 300))) for p in COORD[d]] for d in COORD}
    lines += [[list(map(list, p)), o, "array"] for d in away for p in itertools.permutations(away[d], 2) for o in OVER]
    ctx.each("line", lines, line, chunk=32)
    planes, quads = [], []
    for p in itertools.permutations(COORD[3], 3):
        for o in OVER:
            for k in ("tuples", "array", "ints"):
                planes.append(["plane", list(map(list, p)), o, k])
    for p in itertools.permutations(COORD[3], 4):
        for o in OVER:
            quads.append(["bilinear", list(map(list, p)), o, "lists"])
            if not ctx.quick:
                quads.append(["bilinear", list(map(list, p)), o, "ints"])
    for p in itertools.permutations(COORD[3][:4], 4):
        for k in ("tuples", "array", "ints"):
            quads += [["bilinear", list(map(list, p)), o, k] for o in OVER]
    planes += [["plane", list(map(list, p)), o, "array"] for p in itertools.permutations(away[3][:5], 3) for o in OVER]
    quads += [["bilinear", list(map(list, p)), o, "array"] for p in itertools.permutations(away[3][:5], 4) for o in OVER]
    ctx.bound("all ordered pairs, triples and quadruples of catalogues of points in dimensions 1-3, overhangs {}".format(OVER))
    ctx.each("surf", planes + quads, surf, chunk=16)
    cs = [[dim, n, deg, tol, sh, far] for far in (False, True) for dim in (2, 3) for n in ctx.pick((6, 9, 17), (5, 6, 8, 9, 13, 17, 33)) for deg in (None, 1, 2, 3, 4) if n > (deg or 3) + 1
          for tol in (None, 0.0, 1e-4, 0.1) for sh in ("arc", "zigzag", "parabola")]
    ctx.each("curve", cs, curve, chunk=4)


def replay(case):
    {"line": line, "surf": surf, "curve": curve}[case["space"]](case["case"], core.Out())
