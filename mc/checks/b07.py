"""B07: transforms, copies and conversions of Z-surfaces for all histories."""
import itertools

import numpy as np
from bgem.bspline import bspline as bs

from .. import core
from .. import spline_ref as sr
from ..core import require
from . import b05

LEVEL = "model_checking"
ASSUMPTIONS = ["knots of the z surface span the unit interval", "XY transforms are regular",
               "for the bilinear mapping the inverse (XY to UV) is documented as not implemented and is not used"]
TOL = 1e-9

QUADS = {
    "unit": [[0, 1], [0, 0], [1, 0], [1, 1]],
    "three": [[1, 3.5], [1, 2], [2, 2.2]],
    "skew": [[-1, 4], [0, 1], [5, 2], [4, 5]],
    "mirror": [[2, 0], [0, 0], [0, 3], [2, 3]],
    "bilinear": [[0, 3], [0, 0], [4, -1], [5, 4]],
}
FAR = (-700000.0, -1100000.0)      # sites in a national grid (S-JTSK)
for _n, _f in (("skew", 1), ("three", 1), ("bilinear", 1), ("bilinear", 0.25)):
    QUADS[_n + " far" + ("" if _f == 1 else " small")] = [[_f * x + FAR[0], _f * y + FAR[1]] for x, y in QUADS[_n]]
QUADS["bilinear large"] = [[1000 * x, 1000 * y] for x, y in QUADS["bilinear"]]
QUADS["bilinear tiny"] = [[x / 4096, y / 4096] for x, y in QUADS["bilinear"]]
QUADS["almost linear"] = [[0, 3], [0, 0], [4, -1], [4.001, 2.001]]
DEEP = ("unit", "three", "skew", "mirror", "bilinear", "bilinear far")
XY = [[[1, 0, 0], [0, 1, 0]], [[2, 1, -1], [1, 2, -2]], [[0, -1, 3], [1, 0, 0.5]], [[1, 0, 10], [0, -1, 20]]]
Z = [[1, 0], [2, 1], [-1, 3], [0.5, -4]]
SURFS = [
    (1, 1, [0, 0, 1, 1], [0, 0, 1, 1]),
    (2, 2, [0, 0, 0, 0.25, 1, 1, 1], [0, 0, 0, 0.5, 0.75, 1, 1, 1]),
    (1, 2, [0, 0, 0.5, 1, 1], [0, 0, 0, 1, 1, 1]),
    (3, 1, [0, 0, 0, 0, 0.5, 1, 1, 1, 1], [0, 0, 0.75, 1, 1]),
]
UV = np.array([[u, v] for u in (0, 0.2, 0.5, 0.9, 1) for v in (0, 0.35, 0.5, 1)], dtype=float)


class Model:
    """Independent evaluation: quad weights, spline values of the plain 1d surface, last transforms, baked z."""
    def __init__(self, quad, zval):
        q = np.array(quad, dtype=float)
        if len(q) == 3:
            q = np.vstack([q, q[0] + q[2] - q[1]])
        self.q, self.zval = q, zval
        self.xy, self.z = None, None
        self.base = (1.0, 0.0)

    def copy(self):
        m = Model(self.q, self.zval)
        m.xy, m.z, m.base = self.xy, self.z, self.base
        return m

    def eval_xy(self, u, v):
        w = [(1 - u) * v, (1 - u) * (1 - v), u * (1 - v), u * v]
        p = sum(a * b for a, b in zip(w, self.q))
        if self.xy is not None:
            m = np.array(self.xy, dtype=float)
            c = self.q.mean(axis=0)
            p = m[:, :2].dot(p - c) + c + m[:, 2]
        return p

    def z_of(self, z):
        return self.base[0] * z + self.base[1]

    def zaffine(self):
        """Scale and shift taking plain z values to final ones."""
        a, b = self.base
        if self.z is not None:
            c = a * self.zval[0.5, 0.5] + b
            a, b = self.z[0] * a, self.z[0] * b + self.z[1] + (1 - self.z[0]) * c
        return a, b

    def bake(self):
        self.base = self.zaffine()
        self.z = None


def zvalues(surf_def):
    du, dv, ku, kv = surf_def
    ru, rv = sr.Basis(du, ku), sr.Basis(dv, kv)
    poles = b05.make_poles(ru.size, rv.size, 1, False)
    val = {}
    for u, v in UV.tolist() + [[0.5, 0.5]]:
        val[u, v] = float(b05.exact(ru, rv, poles, 1, False, sr.F(u), sr.F(v))[0])
    return [[[float(x) for x in p] for p in row] for row in poles], val


ZV = None


def is_bilinear(q):
    return bool(np.any(np.abs(q[3] - (q[0] + q[2] - q[1])) > 1e-6 * np.abs(q - q[1]).max()))


def verify(s, m, poles, bilinear, out):
    out.transitions += 1
    a, b = m.zaffine()
    exp = np.array([list(m.eval_xy(u, v)) + [a * m.zval[u, v] + b] for u, v in UV.tolist()])
    uv = UV.copy()
    arr = s.eval_array(uv)
    require(arr.shape == exp.shape and np.allclose(arr, exp, rtol=0, atol=TOL * 10), "eval_array: point {} instead of {}",
            arr[np.argmax(np.abs(arr - exp).max(axis=1))].tolist(), exp[np.argmax(np.abs(arr - exp).max(axis=1))].tolist())
    one = np.array([s.eval(u, v) for u, v in UV])
    require(np.allclose(one, exp, rtol=0, atol=TOL * 10), "eval does not agree with eval_array")
    require(np.allclose(s.uv_to_xy(uv), exp[:, :2], rtol=0, atol=TOL * 10), "uv_to_xy: {} instead of {}", s.uv_to_xy(uv).tolist(), exp[:, :2].tolist())
    require(np.allclose(s.z_eval_array(uv), exp[:, 2], rtol=0, atol=TOL * 10), "z_eval_array does not agree with eval_array")
    require(np.array_equal(uv, UV), "evaluation changed the points")
    if not bilinear:
        xy = exp[:, :2].copy()
        back = s.xy_to_uv(xy)
        require(np.allclose(back, UV, rtol=0, atol=1e-7), "xy_to_uv is not inverse of uv_to_xy: {} instead of {}", back.tolist(), UV.tolist())
        inner = [i for i, (u, v) in enumerate(UV.tolist()) if 0 < u < 1 and 0 < v < 1]
        require(np.allclose(s.eval_xy_array(xy[inner]), exp[inner], rtol=0, atol=1e-6), "eval_xy_array is wrong")
        require(np.allclose(s.z_eval_xy_array(xy[inner]), exp[inner][:, 2], rtol=0, atol=1e-6), "z_eval_xy_array is wrong")
    corners = np.array([m.eval_xy(0, 1), m.eval_xy(0, 0), m.eval_xy(1, 0), m.eval_xy(1, 1)])
    require(np.allclose(s.quad, corners, rtol=0, atol=TOL * 10), "quad is {} instead of {}", np.array(s.quad).tolist(), corners.tolist())
    c = m.eval_xy(0.5, 0.5)
    require(np.allclose(s.center(), [c[0], c[1], a * m.zval[0.5, 0.5] + b], rtol=0, atol=TOL * 10), "center is {}", s.center())
    zp = [a * p[0] + b for row in poles for p in row]
    box = np.array(s.aabb())
    ebox = np.array([list(corners.min(axis=0)) + [min(zp)], list(corners.max(axis=0)) + [max(zp)]])
    require(np.all(box[0] <= exp.min(axis=0) + 1e-9) and np.all(box[1] >= exp.max(axis=0) - 1e-9), "box {} does not contain the surface", box.tolist())
    require(np.allclose(box, ebox, rtol=0, atol=TOL * 10), "box is {} instead of {}", box.tolist(), ebox.tolist())
    txy, tz = s.get_transform()
    require(np.allclose(txy, m.xy if m.xy is not None else [[1, 0, 0], [0, 1, 0]]), "get_transform reports XY {}", np.array(txy).tolist())
    require(np.allclose(tz, m.z if m.z is not None else [1, 0]), "get_transform reports Z {} instead of {}", np.array(tz).tolist(), m.z)
    full = s.make_full_surface()
    require(full.dim == 3 and np.allclose(full.eval_array(uv), exp, rtol=0, atol=TOL * 10), "full surface differs")


def evaluate(case, out):
    name, si, hist = case
    d = SURFS[si]
    poles, zval = (ZV or [zvalues(x) for x in SURFS])[si]
    quad = np.array(QUADS[name], dtype=float)
    qin = quad.copy()
    surf = bs.Surface((bs.SplineBasis(d[0], d[2]), bs.SplineBasis(d[1], d[3])), poles)
    objs = [(bs.Z_Surface(qin, surf), Model(quad, zval))]
    for op in hist:
        k = op[0]
        i = op[1] if op[1] < len(objs) else None
        if i is None:
            return False
        s, m = objs[i]
        if k == "copy":
            if len(objs) == 3:
                return False
            objs.append((s.get_copy(), m.copy()))
        elif k == "xy":
            arg = np.array(XY[op[2]], dtype=float)
            s.transform(arg)
            require(np.array_equal(arg, XY[op[2]]), "transform changed its argument")
            arg += 7                  # the caller may reuse its array
            m.xy = XY[op[2]]
        elif k == "z":
            arg = np.array(Z[op[2]], dtype=float)
            s.transform(None, arg)
            require(np.array_equal(arg, Z[op[2]]), "transform changed its argument")
            arg += 7
            m.z = Z[op[2]]
        elif k == "xyz":
            s.transform(np.array(XY[op[2]], dtype=float), np.array(Z[op[3]], dtype=float))
            m.xy, m.z = XY[op[2]], Z[op[3]]
        elif k == "bake":
            s.apply_z_transform()
            m.bake()
        # every object after every operation: nothing may leak to the others
    for s, m in objs:
        verify(s, m, poles, is_bilinear(m.q), out)
    require(np.array_equal(qin, quad), "given quad was changed")
    qin += 3
    s, m = objs[-1]
    s.transform(np.array(XY[1], dtype=float))
    m.xy = XY[1]
    for s, m in objs:
        verify(s, m, poles, is_bilinear(m.q), out)
    require(np.allclose(surf.poles, poles), "poles of the shared surface were changed")
    out.states += 1
    out.outcomes.add((name, si, tuple(o[0] for o in hist)))
    return True


def alphabet(ctx):
    ops = [["copy", 0], ["copy", 1]]
    for i in (0, 1, 2):
        ops += [["bake", i], ["xy", i, 1], ["z", i, 2], ["z", i, 1]]
        if i < 2:
            ops += [["xy", i, 2], ["xyz", i, 3, 3]]
    return ops


def cases(ctx):
    ops = alphabet(ctx)
    depth = ctx.pick(3, 4)
    for name in QUADS:
        for si in range(len(SURFS)):
            dd = depth - (si != 1) - (name not in DEEP)
            for n in range(dd + 1):
                for h in itertools.product(ops, repeat=n):
                    live = 1
                    ok = True
                    for o in h:
                        if o[1] >= live or (o[0] == "copy" and live == 3):
                            ok = False
                            break
                        live += o[0] == "copy"
                    if ok:
                        yield [name, si, list(h)]
            # all transforms of the catalogue
            for x in range(len(XY)):
                for z in range(len(Z)):
                    yield [name, si, [["xyz", 0, x, z]]]


def explore(ctx):
    global ZV
    ZV = [zvalues(x) for x in SURFS]
    ctx.bound("all histories of XY/Z transforms, baking and copying on up to 3 objects up to depth {} ({} operations)".format(ctx.pick(3, 4), len(alphabet(ctx))))
    ctx.each("history", cases(ctx), evaluate, chunk=8)


def replay(case):
    evaluate(case["case"], core.Out())
