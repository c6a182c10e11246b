"""B08: surfaces on regular point grids interpolate the points; irregular grids are refused."""
import itertools
import os

import numpy as np
from bgem.bspline import bspline as bs

from .. import core
from ..core import require

LEVEL = "model_checking"
ASSUMPTIONS = ["grids of a relative irregularity below 1e-7 are accepted, above 1e-3 refused"]
TOL = 1e-8

# (origin, u side, v side)
QUADS = [((0, 0), (1, 0), (0, 1)), ((10, -20), (4, 0), (0, 3)), ((-3, 5), (2, 1), (-1, 2)), ((0, 0), (0, 3), (3, 0)), ((1, 1), (-2, 1), (3, 5)),
         ((0.1, 0.2), (0.03, 0.01), (-0.01, 0.02)),
         ((-700000, -1100000), (4, 1), (-1, 3)), ((-700000.5, -1100000.25), (0.5, -0.125), (0.25, 0.75)), ((3e5, 5e6), (1500, 300), (-200, 2500))]
XY = [[[1, 0, 0], [0, 1, 0]], [[2, 1, -1], [1, 2, -2]], [[0, -1, 3], [1, 0, 0.5]], [[1, 0, 10], [0, -1, 20]]]
Z = [[1, 0], [2, 1], [-1, 3], [0.5, -4]]


def grid(nu, nv, q):
    o, a, b = [np.array(x, dtype=float) for x in QUADS[q]]
    pts = []
    for i in range(nu):
        for j in range(nv):
            p = o + a * i / (nu - 1) + b * j / (nv - 1)
            z = ((i * i * 3 + j * 5 + i * j * 2 + nu) % 11) - 4.5
            pts.append([p[0], p[1], z])
    return np.array(pts)


def interp(pts, nu, nv, u, v):
    z = pts[:, 2].reshape(nu, nv)
    x, y = u * (nu - 1), v * (nv - 1)
    i, j = min(int(x + 1e-12), nu - 2), min(int(y + 1e-12), nv - 2)
    x, y = x - i, y - j
    return z[i, j] * (1 - x) * (1 - y) + z[i + 1, j] * x * (1 - y) + z[i, j + 1] * (1 - x) * y + z[i + 1, j + 1] * x * y


def verify(s, pts, nu, nv, q, xy, z, out):
    quad = np.array(QUADS[q][0], dtype=float) + np.array([[QUADS[q][2][0], QUADS[q][2][1]], [0, 0], [QUADS[q][1][0], QUADS[q][1][1]],
                                                         [QUADS[q][1][0] + QUADS[q][2][0], QUADS[q][1][1] + QUADS[q][2][1]]], dtype=float)
    cen = quad.mean(axis=0)
    xy = np.array(xy, dtype=float)
    quad2 = (quad - cen).dot(xy[:, :2].T) + cen + xy[:, 2]
    zc = interp(pts, nu, nv, 0.5, 0.5)
    # rounding of the coordinates, and of z by the slope of the surface
    size = np.abs(quad2 - quad2[1]).max()
    scale = 1e-8 + size + 1e-7 * np.abs(quad2).max()
    zscale = np.abs(z[0] * pts[:, 2]).max() + abs(zc) + abs(z[1])
    zscale = zscale * (1 + 1e-7 * np.abs(quad2).max() / size)
    tol3 = TOL * np.array([scale, scale, zscale])

    def ez(u, v):
        return z[0] * (interp(pts, nu, nv, u, v) - zc) + zc + z[1]

    require(np.allclose(s.quad, quad2, rtol=0, atol=TOL * scale), "quad is {} instead of {}", np.array(s.quad).tolist(), quad2.tolist())
    us = sorted({i / (nu - 1) for i in range(nu)} | {(i + f) / (nu - 1) for i in range(nu - 1) for f in (0.25, 0.6)})
    vs = sorted({i / (nv - 1) for i in range(nv)} | {(i + f) / (nv - 1) for i in range(nv - 1) for f in (0.4, 0.9)})
    uv = np.array([[u, v] for u in us for v in vs])
    out.transitions += len(uv)
    exp = np.array([list((1 - u) * (1 - v) * quad2[1] + u * (1 - v) * quad2[2] + (1 - u) * v * quad2[0] + u * v * quad2[3]) + [ez(u, v)] for u, v in uv])
    r = s.eval_array(uv.copy())
    require(r.shape == exp.shape and np.all(np.abs(r - exp) <= tol3), "eval_array: {} instead of {}",
            r[np.argmax(np.abs(r - exp).max(axis=1))].tolist(), exp[np.argmax(np.abs(r - exp).max(axis=1))].tolist())
    r = s.z_eval_array(uv.copy())
    require(np.allclose(r, exp[:, 2], rtol=0, atol=TOL * zscale), "z_eval_array: difference {} from eval_array", np.abs(r - exp[:, 2]).max())
    r = s.z_eval_xy_array(exp[:, :2].copy())
    require(np.allclose(r, exp[:, 2], rtol=0, atol=10 * TOL * zscale), "z_eval_xy_array: difference {} from eval_array", np.abs(r - exp[:, 2]).max())
    require(np.allclose(s.uv_to_xy(uv), exp[:, :2], rtol=0, atol=TOL * scale), "uv_to_xy is wrong")
    require(np.allclose(s.xy_to_uv(exp[:, :2]), uv, rtol=0, atol=1e-7), "xy_to_uv is wrong")
    require(np.all(np.abs(np.array(s.center()) - (list(quad2.mean(axis=0)) + [zc + z[1]])) <= tol3), "center is {}", s.center())
    box = np.array(s.aabb())
    zz = z[0] * (pts[:, 2] - zc) + zc + z[1]
    require(np.all(np.abs(box - np.array([list(quad2.min(axis=0)) + [zz.min()], list(quad2.max(axis=0)) + [zz.max()]])) <= tol3), "box is {}", box.tolist())


def regular(case, out):
    nu, nv, q, hist = case
    pts = grid(nu, nv, q)
    given = pts.copy()
    s = bs.GridSurface(given)
    require(tuple(s.shape) == (nu, nv), "shape of {} x {} grid detected as {}", nu, nv, s.shape)
    xy, z = XY[0], Z[0]
    verify(s, pts, nu, nv, q, xy, z, out)
    for a, b in hist:
        s.transform(np.array(XY[a], dtype=float) if a is not None else None, np.array(Z[b], dtype=float) if b is not None else None)
        xy = XY[a] if a is not None else xy
        z = Z[b] if b is not None else z
        verify(s, pts, nu, nv, q, xy, z, out)
    require(np.array_equal(given, pts), "given points were changed")
    out.outcomes.add((nu, nv, q, len(hist)))
    out.states += 1


def loaded(case, out):
    nu, nv, q, fmt = case
    pts = grid(nu, nv, q)
    fn = os.path.join(os.environ["MC_SCRATCH"], "grid_{}_{}_{}_{}.txt".format(nu, nv, q, fmt.strip("%")))
    np.savetxt(fn, pts, fmt=fmt)
    s = bs.GridSurface.load(fn)
    os.remove(fn)
    require(tuple(s.shape) == (nu, nv), "shape of {} x {} grid detected as {}", nu, nv, s.shape)
    verify(s, pts, nu, nv, q, XY[0], Z[0], out)
    out.states += 1


def irregular(case, out):
    nu, nv, q, kind = case[:4]
    pts = grid(nu, nv, q)
    side = max(np.linalg.norm(QUADS[q][1]), np.linalg.norm(QUADS[q][2]))
    if kind == "point":
        pts[case[4], :2] += np.array(case[5]) * side
    elif kind == "drop":
        pts = np.delete(pts, case[4], axis=0)
    elif kind == "row":
        pts = pts[:nv]
    elif kind == "swap":
        i, j = case[4:]
        pts[[i, j]] = pts[[j, i]]
    elif kind == "stretch":         # regular corners, uneven steps
        i = case[4]
        pts = pts.reshape(nu, nv, 3)
        pts[i, :, :2] += 0.01 * np.array(QUADS[q][1], dtype=float)
        pts = pts.reshape(-1, 3)
    elif kind == "trapezoid":
        for i in range(nu):
            for j in range(nv):
                pts[i * nv + j, :2] += 0.05 * i * j * np.array(QUADS[q][1], dtype=float) / nu / nv
    try:
        s = bs.GridSurface(pts)
    except (bs.GridNotInShapeExc, bs.IrregularGridExc):
        out.outcomes.add((kind, "refused"))
        return
    # an accepted grid has to interpolate its points
    n = s.shape[0] * s.shape[1]
    require(n == len(pts), "grid of {} points accepted with shape {}", len(pts), s.shape)
    uv = np.array([[i / (s.shape[0] - 1), j / (s.shape[1] - 1)] for i in range(s.shape[0]) for j in range(s.shape[1])])
    r = s.eval_array(uv)
    require(np.allclose(r, pts, rtol=0, atol=1e-4 * side), "irregular grid ({}) is accepted as shape {} and differs from its points by {}", kind, s.shape,
            np.abs(r - pts).max())
    out.outcomes.add((kind, "regular"))


def explore(ctx):
    m = ctx.pick(5, 6)
    sizes = [(a, b) for a in range(2, m + 1) for b in range(2, m + 1)]
    hs = [(a, b) for a in [None] + list(range(len(XY))) for b in [None] + list(range(len(Z)))]
    reg = []
    for nu, nv in sizes:
        for q in range(len(QUADS)):
            reg.append([nu, nv, q, []])
            for h in hs:
                if not ctx.quick or (nu + nv + q) % 3 == 0 or (nu, nv) in ((3, 4), (2, 5)):
                    reg.append([nu, nv, q, [h]])
            if (nu, nv) in (((3, 4),) if ctx.quick else ((2, 2), (3, 4), (5, 3))) and q in (2, 4):
                reg += [[nu, nv, q, list(h)] for h in itertools.product(hs[::2 if ctx.quick else 1], repeat=2)]
    for nu, nv in ctx.pick(((2, 40), (33, 3), (9, 14), (20, 20)), ((2, 40), (33, 3), (9, 14), (20, 20), (2, 150), (60, 41))):
        for q in range(len(QUADS)):
            for h in ([], [hs[-1]], [hs[1], hs[-2]]):
                reg.append([nu, nv, q, h])
    ctx.bound("grids up to {}".format(max(c[:2] for c in reg)))
    ctx.bound("grids 2..{0} x 2..{0}, {1} parallelograms, all histories of up to 2 transforms of {2}".format(m, len(QUADS), len(hs)))
    ctx.each("regular", reg, regular, chunk=8)
    ctx.each("loaded", [[a, b, q, f] for a, b in sizes for q in range(len(QUADS)) for f in ("%.18e", "%.12g" if q < 6 else "%.16g")], loaded, chunk=16)
    bad = []
    for nu, nv in sizes:
        for q in range(len(QUADS)):
            n = nu * nv
            for i in range(n):
                for d in ((0.02, 0), (0, -0.02), (0.01, 0.013), (0.3, 0.2)):
                    bad.append([nu, nv, q, "point", i, d])
                bad.append([nu, nv, q, "drop", i])
                for j in range(i):
                    if n < 13 or not ctx.quick:
                        bad.append([nu, nv, q, "swap", i, j])
            bad.append([nu, nv, q, "row"])
            bad.append([nu, nv, q, "trapezoid"])
            bad += [[nu, nv, q, "stretch", i] for i in range(1, nu - 1)]
    ctx.bound("every single displaced, missing or swapped point, single rows, trapezoids, uneven steps")
    ctx.each("irregular", bad, irregular, chunk=64)


def replay(case):
    {"regular": regular, "loaded": loaded, "irregular": irregular}[case["space"]](case["case"], core.Out())
