"""B12: intersection points of parameter lines of one surface with an other surface."""
import itertools
import math
from fractions import Fraction as F

import numpy as np
from bgem.bspline import bspline as bs, isec_surf_surf as iss, isec_curve_surf as ics, surface_point as sp

from .. import core
from .. import spline_ref as sr
from ..core import require

LEVEL = "model_checking"
ASSUMPTIONS = ["surfaces of degree 2 over the unit square (the only ones supported by the intersection code)",
               "crossings within 1e-3 of the border of the other surface, touching lines and lines within the other surface are not judged",
               "completeness is judged for flat surfaces and for pieces of lines where the curved patch is not much flatter or steeper than at the crossing (the iteration on curved patches is local by design)",
               "a piece of a parameter line between two knots crossing the other surface more than once is not judged for completeness (one point per piece and patch by design)"]
ABS = 1e-9

KNOTS = {
    "1": [0, 1],
    "2": [0, 0.5, 1],
    "3": [0, 0.25, 0.75, 1],
    "4": [0, 0.25, 0.5, 0.75, 1],
}


def basis(name):
    k = KNOTS[name]
    return [0.0, 0.0] + [float(x) for x in k] + [1.0, 1.0]


def poles_1d(kn, f, df):
    """Poles of a quadratic function by blossoming: pole i = f[k_{i+1}, k_{i+2}] (polar form)."""
    return [f((kn[i + 1], kn[i + 2])) for i in range(len(kn) - 3)]


class Quadratic:
    """P(u, v) = o + u a + v b + n (cu u^2 + cv v^2 + cuv u v), exact quadratic spline."""
    def __init__(self, o, a, b, n=(0, 0, 0), c=(0, 0, 0)):
        self.o, self.a, self.b, self.n = [np.array(x, dtype=float) for x in (o, a, b, n)]
        self.c = c

    def at(self, u, v):
        return self.o + u * self.a + v * self.b + self.n * (self.c[0] * u * u + self.c[1] * v * v + self.c[2] * u * v)

    def surface(self, ku, kv):
        ku, kv = basis(ku), basis(kv)
        bu, bv = bs.SplineBasis(2, ku), bs.SplineBasis(2, kv)
        poles = []
        for i in range(len(ku) - 3):
            row = []
            for j in range(len(kv) - 3):
                u1, u2, v1, v2 = ku[i + 1], ku[i + 2], kv[j + 1], kv[j + 2]
                um, vm = (u1 + u2) / 2, (v1 + v2) / 2
                row.append(self.o + um * self.a + vm * self.b + self.n * (self.c[0] * u1 * u2 + self.c[1] * v1 * v2 + self.c[2] * um * vm))
            poles.append(row)
        return bs.Surface((bu, bv), np.array(poles))


UNIT = Quadratic((0, 0, 0), (1, 0, 0), (0, 1, 0))
FIRST = {
    "unit": UNIT,
    "skew": Quadratic((-1, 0.5, 0.25), (3, 1, 0.5), (-0.5, 2, -1)),
    "par-u": Quadratic((0, 0, -0.2), (1, 0, 0), (0, 1, 0), (0, 0, 1), (0.8, 0, 0)),
    "saddle": Quadratic((0, 0, 0), (1, 0, 0), (0, 1, 0.2), (0, 0, 1), (0.5, -0.4, 0.3)),
}


def seconds():
    """Planes through many places with many normals relative to the unit square."""
    for (x, y) in ((0.5, 0.5), (0.3, 0.6), (0.25, 0.4), (0.9, 0.1), (0.71, 0.33)):
        for ang in (0.0, 0.4, 1.1, math.pi / 2, 2.2):
            for size in (3.0, 0.7):
                d = np.array([math.cos(ang), math.sin(ang), 0.1])
                up = np.array([0.2, -0.1, 1.0])
                o = np.array([x, y, 0.07]) - size * (0.45 * d + 0.55 * up)
                yield ["plane", list(o), list(size * d), list(size * up)]
    for t in (0.1, 0.3, 0.5, 0.66):
        yield ["parab", [-0.5, -0.4, t - 0.3], [2, 0.1, 0.1], [0.1, 2, 0.2]]


def second(s):
    if s[0] == "plane":
        return Quadratic(*s[1:])
    return Quadratic(s[1], s[2], s[3], (0, 0, 1), (0.3, 0.2, 0))


def flat(q):
    return all(c == 0 for c in q.c)


def evaluate(case, out):
    n1, k1, s2, k2, order = case[:5]
    q1, q2 = FIRST[n1], second(s2)
    shift, scale, tol = np.zeros(3), 1.0, ABS
    if len(case) > 5:
        shift, scale, tol = np.array(case[5], dtype=float), case[6], case[7]
        q1, q2 = [Quadratic(scale * q.o + shift, scale * q.a, scale * q.b, scale * q.n, q.c) for q in (q1, q2)]
    lim = max(1e-7, 100 * tol)
    f1, f2 = q1.surface(*k1), q2.surface(*k2)
    if order:
        q1, q2, f1, f2, k1, k2 = q2, q1, f2, f1, k2, k1
    isec = iss.IsecSurfSurf(f1, f2, abs_tol=tol, max_it=20)
    pts = isec.get_intersections(f1, f2)
    found = []
    for p in pts:
        a, b = p.surface_point
        out.transitions += 1
        require(a.surf is f1 and b.surf is f2, "point refers to a wrong surface")
        (u, v), (s, t) = a.uv, b.uv
        require(all(-1e-12 <= x <= 1 + 1e-12 for x in (u, v, s, t)), "parameters {} out of the unit square", (u, v, s, t))
        pa, pb = q1.at(u, v), q2.at(s, t)
        require(np.linalg.norm(pa - pb) < lim, "points of the surfaces at {} and {} differ by {}", (u, v), (s, t), np.linalg.norm(pa - pb))
        require(np.linalg.norm(pa - p.xyz) < lim, "reported position {} is {} from the surfaces", list(p.xyz), np.linalg.norm(pa - p.xyz))
        ku, kv = KNOTS[k1[0]], KNOTS[k1[1]]
        require(min(abs(u - k) for k in ku) < 1e-12 or min(abs(v - k) for k in kv) < 1e-12, "point {} does not lie on a parameter line of a knot", (u, v))
        for q, x, y, kk in ((a, u, v, k1), (b, s, t, k2)):
            flagged = any(abs(w) == 0 or abs(w - 1) == 0 for w in (x, y))
            require(bool(q.surface_boundary_flag) == flagged, "boundary flag of {} is {}", (x, y), q.surface_boundary_flag)
            kx, ky = KNOTS[kk[0]], KNOTS[kk[1]]
            ids = q.patch_id()
            exp = {q.surf.patch_pos2id(i, j) for i in range(len(kx) - 1) for j in range(len(ky) - 1)
                   if kx[i] <= x <= kx[i + 1] and ky[j] <= y <= ky[j + 1]}
            mustnot = {q.surf.patch_pos2id(i, j) for i in range(len(kx) - 1) for j in range(len(ky) - 1)
                       if not (kx[i] - 1e-9 <= x <= kx[i + 1] + 1e-9 and ky[j] - 1e-9 <= y <= ky[j + 1] + 1e-9)}
            if not any(w in (0, 1) for w in (x, y)):
                require(set(ids) >= exp or any(abs(w - k) < 1e-9 for w, kn in ((x, kx), (y, ky)) for k in kn), "point {} misses patches {}", (x, y), exp - set(ids))
            require(not set(ids) & mustnot, "point {} is assigned to patches {} it does not touch", (x, y), sorted(set(ids) & mustnot))
        found.append((u, v))
    # completeness: crossings of knot lines computed independently
    if len(case) > 5:      # the reference works in the place of the original surfaces
        q1, q2 = FIRST[n1], second(s2)
        if order:
            q1, q2 = q2, q1
    for u, v in crossings(q1, q2, k1) if flat(q1) and flat(q2) else ():
        out.transitions += 1
        require(any(abs(u - x) + abs(v - y) < 1e-5 for x, y in found), "crossing of the parameter line at {} of the first surface is not found", (u, v))
        out.extra["crossings"] += 1
    out.states += 1
    out.outcomes.add(len(found))


def crossings(q1, q2, k1):
    """Knot lines of q1 against q2: sign changes of the implicit function along the line."""
    planar = all(c == 0 for c in q2.c)
    if not planar:
        # second surface is z = quadratic over a parallelogram (n = z axis): implicit function by solving for (s, t) from x, y
        m = np.linalg.inv(np.column_stack([q2.a[:2], q2.b[:2]]))

        def g(p):
            s, t = m.dot(p[:2] - q2.o[:2])
            return p[2] - q2.at(s, t)[2], s, t
    else:
        nrm = np.cross(q2.a, q2.b)
        m3 = np.linalg.inv(np.column_stack([q2.a, q2.b, nrm]))

        def g(p):
            s, t, w = m3.dot(p - q2.o)
            return w * np.linalg.norm(nrm), s, t
    res = []
    for axis in (0, 1):
        for k in KNOTS[k1[axis]]:
            pt = (lambda t: (k, t)) if axis == 0 else (lambda t: (t, k))
            n = 64
            vals = [g(q1.at(*pt(i / n)))[0] for i in range(n + 1)]
            knots = KNOTS[k1[1 - axis]]
            line = []
            for i in range(n):
                lo, hi = i / n, (i + 1) / n
                a, b = vals[i], vals[i + 1]
                if a == 0 or b == 0 or (a > 0) == (b > 0):
                    continue
                for _ in range(60):
                    mid = (lo + hi) / 2
                    if (g(q1.at(*pt(mid)))[0] > 0) == (a > 0):
                        lo = mid
                    else:
                        hi = mid
                x = pt((lo + hi) / 2)
                _, s, t = g(q1.at(*x))
                slope = abs(vals[i + 1] - vals[i]) * n
                line.append(x[1 - axis])
                if slope > 0.02 and 1e-3 < s < 1 - 1e-3 and 1e-3 < t < 1 - 1e-3:
                    res.append(x)
            for k0, k2 in zip(knots, knots[1:]):
                if sum(k0 - 1e-9 <= y <= k2 + 1e-9 for y in line) > 1:
                    res = [x for x in res if not (x[axis] == k and k0 - 1e-9 <= x[1 - axis] <= k2 + 1e-9)]
    return res


# ---------------------------------------------------------------- pieces of lines crossing more patches
def folded_cases(ctx):
    """Surfaces waving along x: all sequences of heights of poles, crossed by horizontal planes."""
    for k2 in ("2", "4") if ctx.quick else ("2", "3", "4"):
        n = len(KNOTS[k2]) + 1
        for z in itertools.product((0, 1) if ctx.quick and k2 == "4" else (0, 1, 2), repeat=n):
            if min(z) == max(z):
                continue
            for h in (0.3, 0.62, 0.8, 1.45):
                if min(z) < h < max(z):
                    for k1 in ("1", "3") if ctx.quick else ("1", "2", "3"):
                        for order in (0, 1):
                            yield [list(z), k2, h, k1, order]


def folded(case, out):
    z, k2, h, k1, order = case
    kn = basis(k2)
    xs = [(kn[i + 1] + kn[i + 2]) / 2 for i in range(len(z))]
    wave = bs.Surface((bs.SplineBasis(2, kn), bs.SplineBasis(2, basis("1"))), np.array([[[x, y, float(q)] for y in (0., .5, 1.)] for x, q in zip(xs, z)]))
    x0, w = -0.0371, 1.0813
    y0, dy = (-0.13, 1.3) if order else (0.1, 0.7)
    plane = Quadratic((x0, y0, h), (w, 0, 0), (0, dy, 0)).surface(k1, "1")
    ref = sr.Basis(2, [F(x) for x in kn])
    grid = 400
    val = [float(sum(F(q) * b for q, b in zip(z, ref.vector(F(i, grid))))) - h for i in range(grid + 1)]
    roots = []
    for i in range(grid):
        if (val[i] > 0) != (val[i + 1] > 0):
            roots.append(((i + val[i] / (val[i] - val[i + 1])) / grid, abs(val[i + 1] - val[i]) * grid))
    a, b = (plane, wave) if not order else (wave, plane)
    pts = iss.IsecSurfSurf(a, b, abs_tol=ABS, max_it=20).get_intersections(a, b)
    found = [p.xyz for p in pts]
    ka = [x0 + w * k for k in KNOTS[k1]]
    kb = KNOTS[k2]
    allk = sorted(set(ka) | set(kb))
    for p in found:
        s = float(sum(F(q) * c for q, c in zip(z, ref.vector(F(min(1., max(0., float(p[0]))))))))
        require(abs(p[2] - h) < 1e-7 and abs(s - h) < 1e-7, "point {} is not common to the surfaces", list(p))
    for x, slope in roots:
        out.transitions += 1
        cell = [(lo, hi) for lo, hi in zip(allk, allk[1:]) if lo <= x <= hi][0]
        if slope < 0.5 or min(abs(x - k) for k in allk) < 0.01 or sum(cell[0] <= y <= cell[1] for y, _ in roots) > 1:
            continue
        slopes = [val[i + 1] - val[i] for i in range(grid) if cell[0] * grid <= i and i + 1 <= cell[1] * grid] or [1., -1.]
        if min(map(abs, slopes)) < 0.4 * max(map(abs, slopes)) or min(slopes) * max(slopes) < 0:
            continue                    # the iteration is local by design
        for y in (0., 1.) if order else (0.1, 0.8):
            require(any(abs(p[0] - x) < 1e-3 and abs(p[1] - y) < 1e-6 for p in found), "crossing at {} of the line y = {} is not found", x, y)
            out.extra["crossings"] += 1
    out.states += 1
    out.outcomes.add(len(found))


SPACES = {"folded": folded}


def explore(ctx):
    all_ks = [("1", "1"), ("2", "3"), ("4", "2"), ("1", "4"), ("3", "3")]
    ks1, ks2 = (all_ks[1:3], all_ks[:2]) if ctx.quick else (all_ks, all_ks)
    cases = [[n, k1, s, k2, o] for n in FIRST for k1 in ks1 for s in seconds() for k2 in ks2 for o in (0, 1)]
    ctx.bound("{} surfaces x {} planes and paraboloids x {} x {} knot grids, both orders".format(len(FIRST), len(list(seconds())), len(ks1), len(ks2)))
    ctx.each("isec", cases, evaluate, chunk=8)
    place = [[[-700000, -1100000, 300], 1, 1e-7], [[-700000, -1100000, 300], 250, 1e-7], [[0, 0, 0], 4096, 1e-9], [[0, 0, 0], 1 / 4096, 1e-12]]
    sub = [c for c in cases if c[0] in ("unit", "skew") and c[2][0] == "plane"][::ctx.pick(3, 1)]
    ctx.bound("flat surfaces also at {} places and scales".format(len(place)))
    ctx.bound("waving surfaces of all sequences of heights 0, 1, 2 crossed by planes of 4 heights")
    ctx.each("folded", folded_cases(ctx), folded, chunk=8)
    ctx.each("isec moved", [c + p for c in sub for p in place], evaluate, chunk=8)


def replay(case):
    SPACES.get(case["space"], evaluate)(case["case"], core.Out())
