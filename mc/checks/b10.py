"""B10: approximating surfaces solve the regularised least squares problem of the given points."""
import itertools
import os

import numpy as np
from bgem.bspline import bspline as bs, bspline_approx as ba

from .. import core
from .. import spline_ref as sr
from ..core import require

LEVEL = "model_checking"
ASSUMPTIONS = ["scale of the regularisation is a norm estimate with 1% tolerance: results within the effect of a 3% change of it are accepted"]

# name -> quad (v corner, origin, u corner, far corner)
QUADS = {
    "unit": [[0, 1], [0, 0], [1, 0], [1, 1]],
    "box": [[-1, 3], [-1, -1], [7, -1], [7, 3]],
    "skew": [[9, 22], [10, 20], [13, 21], [12, 23]],
    "rot": [[0, 3], [0, 0], [-4, 0], [-4, 3]],
    "utm": [[-700000, -1097952], [-700000, -1100000], [-695904, -1100000], [-695904, -1097952]],
    "utm rot": [[-700295.53, -1099044.65], [-700000.01, -1100000.02], [-697133.99, -1099113.44], [-697429.51, -1098158.07]],
    "utm skew": [[-700300, -1097952], [-700000, -1100000], [-698904, -1099400], [-699204, -1097352]],
}
FUNCS = {
    "const": lambda u, v: 3.0,
    "plane": lambda u, v: 2 * u - 5 * v + 1,
    "biquad": lambda u, v: 3 * u * u * v - 2 * v * v + u * v * v * u - 4,
    "bump": lambda u, v: np.sin(3 * u) * np.cos(2 * v) + (u > 0.5) * v,
    "neg": lambda u, v: -((u - 0.4) ** 2 + abs(v - 0.6)) * 7,
}


_REF, _ROW = {}, {}


def basis_matrix(n, ts):
    if n not in _REF:
        k = [sr.F(0)] * 3 + [sr.F(i, n) for i in range(1, n)] + [sr.F(1)] * 3
        _REF[n] = sr.Basis(2, k)
    ref = _REF[n]
    rows = []
    for t in ts:
        key = (n, float(t))
        if key not in _ROW:
            if len(_ROW) > 200000:
                _ROW.clear()
            _ROW[key] = [float(x) for x in ref.vector(sr.F(t))]
        rows.append(_ROW[key])
    return ref, np.array(rows)


GAUSS = [(sr.F(1, 2) * (1 + sr.F(x).limit_denominator(10 ** 12)), w / 2) for x, w in zip(*np.polynomial.legendre.leggauss(4))]


def gram(n):
    k = [sr.F(0)] * 3 + [sr.F(i, n) for i in range(1, n)] + [sr.F(1)] * 3
    ref = sr.Basis(2, k)
    m, d = np.zeros((n + 2, n + 2)), np.zeros((n + 2, n + 2))
    for i, a, b in ref.ints:
        for t, w in GAUSS:
            x = a + (b - a) * t
            v = np.array([float(ref.eval(j, x, interval=i)) for j in range(n + 2)])
            e = np.array([float(ref.eval(j, x, True, interval=i)) for j in range(n + 2)])
            m += w * float(b - a) * np.outer(v, v)
            d += w * float(b - a) * np.outer(e, e)
    return m, d


_GRAM = {}


def reference(uv, z, w, nuv, reg, scale=1.0):
    nu, nv = nuv
    for n in (nu, nv):
        if n not in _GRAM:
            _GRAM[n] = gram(n)
    bu, bv = basis_matrix(nu, uv[:, 0])[1], basis_matrix(nv, uv[:, 1])[1]
    b = np.einsum("pi,pj->pij", bu, bv).reshape(len(z), -1)
    btb = b.T.dot(w[:, None] * b)
    a = np.kron(_GRAM[nu][1], _GRAM[nv][0]) + np.kron(_GRAM[nu][0], _GRAM[nv][1])
    c = btb + scale * reg * np.linalg.norm(btb, 2) / np.linalg.norm(a, 2) * a
    if np.linalg.cond(c) > 1e11:
        return None, b
    return np.linalg.solve(c, b.T.dot(w * z)), b


def compare(surf, error, uv, z, w, quad, nuv, reg, out, what):
    x, b = reference(uv, z, w, nuv, reg)
    if x is None:
        out.outcomes.add("undetermined")
        return False
    lo = reference(uv, z, w, nuv, reg, 0.97)[0]
    hi = reference(uv, z, w, nuv, reg, 1.03)[0]
    probe = np.array([[u, v] for u in (0.01, 0.21, 0.5, 0.77, 0.99) for v in (0.02, 0.33, 0.6, 0.98)])
    pu, pv = basis_matrix(nuv[0], probe[:, 0])[1], basis_matrix(nuv[1], probe[:, 1])[1]
    pm = np.einsum("pi,pj->pij", pu, pv).reshape(len(probe), -1)
    exp = pm.dot(x)
    slack = np.abs(pm.dot(lo) - pm.dot(hi)).max() + 1e-7 * max(1, np.abs(z).max())
    q = np.array(quad, dtype=float)
    xy = q[1] + probe[:, :1] * (q[2] - q[1]) + probe[:, 1:] * (q[0] - q[1])
    got = surf.eval_xy_array(xy)
    out.transitions += len(probe)
    require(np.allclose(got[:, :2], xy, rtol=0, atol=1e-8 * max(1, np.abs(q).max() / 100)), "{}: XY of the surface differ", what)
    d = np.abs(got[:, 2] - exp).max()
    require(d <= slack, "{}: surface differs by {} from the least squares solution (allowed {})", what, d, slack)
    if error is not None:
        e = np.abs(b.dot(x) - z).max()
        es = max(abs(np.abs(b.dot(y) - z).max() - e) for y in (lo, hi)) + slack
        require(abs(error - e) <= es, "{}: reported error is {} instead of {}", what, error, e)
    return True


def points(n, m, func, shift):
    """Inner grid (not uniform), optionally with the border."""
    us = np.linspace(0, 1, n) if shift == 0 else (np.arange(n) + 0.3 + shift * np.sin(np.arange(n))) / n
    vs = np.linspace(0, 1, m) if shift == 0 else (np.arange(m) + 0.6 + shift * np.cos(np.arange(m))) / m
    uv = np.array([[u, v] for u in us for v in vs])
    z = np.array([FUNCS[func](u, v) for u, v in uv], dtype=float)
    return uv, z


def approx(case, out):
    qn, func, (n, m), nuv, reg, mode = case
    quad = np.array(QUADS[qn], dtype=float)
    shift = 0 if mode != "inner" else 0.15     # otherwise with points on the border of the quad
    uv, z = points(n, m, func, shift)
    if shift == 0:
        # parameters of a grid on the border are exact
        uv = np.round(uv * 64) / 64 if (n - 1) in (4, 8, 16) and (m - 1) in (4, 8, 16) else np.clip(uv, 1 / 64, 1 - 1 / 64)
        z = np.array([FUNCS[func](u, v) for u, v in uv], dtype=float)
    xy = quad[1] + uv[:, :1] * (quad[2] - quad[1]) + uv[:, 1:] * (quad[0] - quad[1])
    w = np.ones(len(z))
    xyz = np.column_stack([xy, z])
    if mode == "weights":
        w = 1.0 + (np.arange(len(z)) % 3)
        xyz = np.column_stack([xyz, w])
    elif mode == "file-weights":
        w = 1.0 + (np.arange(len(z)) % 5) / 4
        xyz = np.column_stack([xyz, w])
    elif mode == "outside":
        far = quad[1] + np.array([[1.3, 0.5], [-0.2, 0.4], [0.5, 1.1], [0.1, -0.6], [2, 2]]).dot(np.array([quad[2] - quad[1], quad[0] - quad[1]]))
        xyz = np.vstack([np.column_stack([far[:3], [1e3] * 3]), xyz, np.column_stack([far[3:], [-1e3] * 2])])
    elif mode == "outside-weights":
        w = 1.0 + (np.arange(len(z)) % 4)
        far = quad[1] + np.array([[1.3, 0.5], [-0.2, 0.4]]).dot(np.array([quad[2] - quad[1], quad[0] - quad[1]]))
        xyz = np.vstack([np.column_stack([far, [1e3] * 2, [50.0] * 2]), np.column_stack([xyz, w])])
    elif mode == "order":
        xyz = xyz[::-1].copy()
    elif mode == "repeat":                     # a point given twice counts twice
        w[::3] = 2.0
        xyz = np.vstack([xyz, xyz[::3]])
    keep = xyz.copy()
    if mode.startswith("file"):
        fn = os.path.join(os.environ["MC_SCRATCH"], "pts_{}.txt".format(abs(hash(str(case)))))
        with open(fn, "w") as f:
            for row in xyz:
                f.write(" ".join(repr(float(x)) for x in row) + "\n")
        a = ba.SurfaceApprox.approx_from_file(fn)
        os.remove(fn)
    else:
        a = ba.SurfaceApprox(xyz)
    kw = dict(quad=quad.copy(), nuv=np.array(nuv), regularization_weight=reg)
    # the solution may be computed on an undetermined system only with regularisation
    if reference(uv, z, w, nuv, reg)[0] is None:
        out.outcomes.add("undetermined")
        out.states += 1
        return
    if mode == "attributes":
        a.set_quad(quad.copy() if reg else [tuple(p) for p in quad.tolist()])
        a.nuv = np.array(nuv)
        a.regularization_weight = reg
        s = a.compute_approximation()
    elif mode == "unit-default":
        a.set_quad()                           # unit square
        s = a.compute_approximation(nuv=np.array(nuv), regularization_weight=reg)
    elif mode == "lists":
        s = a.compute_approximation(quad=[tuple(p) for p in quad.tolist()], nuv=tuple(nuv), regularization_weight=reg)
    else:
        s = a.compute_approximation(**kw)
    compare(s, a.error, uv, z, w, quad, nuv, reg, out, mode)
    if mode == "again":                        # other parameters on the same object
        quad2 = quad.copy()
        nuv2 = (nuv[1], nuv[0])
        s1, e1 = s, a.error
        s = a.compute_approximation(nuv=nuv2, regularization_weight=0.05)
        compare(s, a.error, uv, z, w, quad2, nuv2, 0.05, out, "second approximation")
        compare(s1, e1, uv, z, w, quad, nuv, reg, out, "first approximation afterwards")
    if func == "const" or (reg == 0 and func in ("plane", "biquad") and mode != "again"):
        probe = np.array([[0.13, 0.41], [0.5, 0.5], [0.97, 0.05]])
        r = s.eval_array(probe)[:, 2]
        e = np.array([FUNCS[func](u, v) for u, v in probe], dtype=float)
        require(np.allclose(r, e, rtol=0, atol=1e-6), "{} surface is not reproduced: {} instead of {}", func, r.tolist(), e.tolist())
        require(abs(a.error) < 1e-6, "error of exact approximation is {}", a.error)
    require(np.array_equal(keep, xyz), "given points were changed")
    out.states += 1
    out.outcomes.add((qn, func, tuple(nuv), reg, mode))


def default(case, out):
    """Defaults: the quad is the smallest rectangle around the points, the number of intervals is sized by the points."""
    func, (n, m), ang, (du, dv), at = case
    uv, z = points(n, m, func, 0)
    r = np.array([[np.cos(ang), -np.sin(ang)], [np.sin(ang), np.cos(ang)]])
    xy = (uv * [du, dv]).dot(r.T) + at
    a = ba.SurfaceApprox(np.column_stack([xy, z]))
    q = np.array(a.compute_default_quad())
    require(q.shape == (4, 2), "quad has shape {}", q.shape)
    corners = (np.array([[0, 0], [1, 0], [1, 1], [0, 1]]) * [du, dv]).dot(r.T) + at
    for c in corners:
        require(min(np.abs(q - c).max(axis=1)) < 1e-7, "corner {} of the points is not a corner of the quad {}", c.tolist(), q.tolist())
    require(np.allclose(q[3], q[0] + q[2] - q[1], rtol=0, atol=1e-9), "quad is not a parallelogram")
    u, v = q[2] - q[1], q[0] - q[1]
    require(u[0] * v[1] - u[1] * v[0] > 0, "quad is not counter clockwise")
    nuv = np.array(a.compute_default_nuv())
    require(nuv.shape == (2,) and np.all(nuv >= 1) and np.all(nuv == nuv.astype(int)), "default intervals {}", nuv)
    require((nuv[0] + 2) * (nuv[1] + 2) <= n * m, "more unknowns ({}) than points ({})", nuv, n * m)
    s = a.compute_approximation()
    p = np.array([[0.1, 0.2], [0.5, 0.5], [0.8, 0.7], [0.3, 0.9]])
    e = np.array([FUNCS[func](x, y) for x, y in p], dtype=float)
    z2 = s.z_eval_xy_array((p * [du, dv]).dot(r.T) + at)
    # all given points are in the quad
    puv = np.linalg.solve(np.column_stack([u, v]), (xy - q[1]).T).T
    require(puv.min() > -1e-8 and puv.max() < 1 + 1e-8, "quad does not contain the points")
    compare(s, a.error, np.clip(puv, 0, 1), z, np.ones(len(z)), q, tuple(int(x) for x in nuv), 0.001, out, "default approximation")
    tol = {"const": 1e-6, "plane": 0.1, "biquad": 0.3}[func]
    require(np.abs(z2 - e).max() < tol, "default approximation of {} differs by {}", func, np.abs(z2 - e).max())
    out.transitions += len(p)
    out.states += 1


def from_grid(case, out):
    qn, func, (n, m), nuv = case
    quad = np.array(QUADS[qn], dtype=float)
    uv = np.array([[i / (n - 1), j / (m - 1)] for i in range(n) for j in range(m)])
    z = np.array([FUNCS[func](u, v) for u, v in uv], dtype=float)
    xy = quad[1] + uv[:, :1] * (quad[2] - quad[1]) + uv[:, 1:] * (quad[0] - quad[1])
    g = bs.GridSurface(np.column_stack([xy, z]))
    s = ba.surface_from_grid(g, np.array(nuv))
    compare(s, None, uv, z, np.ones(len(z)), quad, nuv, 0.001, out, "approximation of a grid")
    out.states += 1
    out.outcomes.add(tuple(map(str, case)))


def explore(ctx):
    cases = []
    nuvs = [(1, 1), (1, 2), (2, 1), (2, 3), (3, 2), (4, 4)] + ctx.pick([], [(1, 4), (5, 2), (6, 6), (3, 3)])
    modes = ["plain", "weights", "outside", "outside-weights", "order", "repeat", "file", "again", "attributes", "lists", "inner", "file-weights"]
    for qn in QUADS:
        for func in FUNCS:
            for npts in ctx.pick([(9, 9)], [(9, 9), (5, 9), (17, 9)]):
                for nuv in nuvs:
                    for reg in (0, 0.001, 0.1):
                        for mode in modes:
                            if ctx.quick and mode not in ("plain", "weights") and (func in ("plane", "const") or reg == 0.1):
                                continue
                            cases.append([qn, func, npts, nuv, reg, mode])
    cases += [["unit", f, (9, 9), nuv, r, "unit-default"] for f in FUNCS for nuv in nuvs for r in (0, 0.001)]
    # many points and intervals
    cases += [[q, f, npts, nuv, r, mode] for q in ("unit", "utm skew") for f in ("biquad", "bump") for npts, nuv in (((40, 9), (20, 3)), ((9, 40), (3, 20)), ((33, 33), (14, 15)))
              for r in (0, 0.001) for mode in ("weights", "outside")]
    ctx.bound("{} quads, {} functions, intervals {}, regularisations 0, 0.001, 0.1, modes {}, up to 1089 points and 20 intervals; grids of all quads".format(len(QUADS), len(FUNCS), nuvs, modes))
    ctx.each("approx", cases, approx, chunk=8)
    d = [[f, n, a, s, at] for at in ([5, -3], [-700000, -1100000]) for f in ("const", "plane", "biquad") for n in ctx.pick([(9, 9), (20, 12), (31, 31)], [(9, 9), (20, 12), (31, 31), (12, 50)])
         for a in (0, 0.3, 0.8, 1.4, 2.5) for s in ((1, 1.1), (6, 2), (1, 5))]
    ctx.each("default", d, default, chunk=2)
    g = [[q, f, n, nuv] for q in QUADS for f in FUNCS for n in ((5, 5), (9, 5), (5, 17)) for nuv in nuvs]
    ctx.each("from_grid", g, from_grid, chunk=8)


def replay(case):
    {"approx": approx, "default": default, "from_grid": from_grid}[case["space"]](case["case"], core.Out())
