"""B04: curves are what their poles, weights and knots define."""
import itertools
from fractions import Fraction as F

import numpy as np
from bgem.bspline import bspline as bs

from .. import core
from .. import spline_ref as sr
from ..core import require

LEVEL = "model_checking"
ASSUMPTIONS = ["clamped knot vectors, interior multiplicities up to the degree, positive weights"]
TOL = 1e-9


def pole(i, j, n):
    """Deterministic, not symmetric, of both signs; exactly representable."""
    return F(((i * 7 + j * 5 + i * i * (j + 2) + n) % 17) - 8, 4)


def weight(i, n):
    return F(1 + (i * 3 + n) % 4, 2)


def make_poles(size, dim, rational, n=0):
    return [[pole(i, j, n) for j in range(dim)] + ([weight(i, n)] if rational else []) for i in range(size)]


def exact(ref, poles, dim, rational, t, interval=None):
    w = [ref.eval(b, t, interval=interval) for b in range(ref.size)]
    if rational:
        w = [x * p[dim] for x, p in zip(w, poles)]
        s = sum(w)
        w = [x / s for x in w]
    return [sum(x * p[j] for x, p in zip(w, poles)) for j in range(dim)]


def as_input(poles, kind):
    fl = [[float(x) for x in p] for p in poles]
    if kind == "array":
        return np.array(fl)
    if kind == "tuples":
        return tuple(tuple(p) for p in fl)
    if kind == "ints":           # integer poles (scaled), see cases
        return np.array([[int(x) for x in p] for p in poles])
    return fl


def cases(ctx):
    res = []
    for deg in range(0, ctx.pick(5, 6)):
        for n in range(1, ctx.pick(4, 5)):
            for k in sr.knot_vectors(deg, n, sr.FAR_GAPS if n < 3 else sr.GAPS[:2], sr.STARTS[:ctx.pick(2, 3)] + (sr.FAR,)):
                for rational in (False, True):
                    dims = (1, 2, 3) if n < 3 else ((3,) if ctx.quick else (1, 2, 3, 4))
                    for dim in dims:
                        kinds = ("array", "list", "tuples", "ints") if n == 2 else ("array",)
                        for kind in kinds:
                            res.append([deg, [str(x) for x in k], rational, dim, kind])
    for deg, k in sr.long_vectors(lengths=ctx.pick((1, 7, 9, 40), (1, 2, 7, 8, 9, 17, 40, 150))):
        for rational in (False, True):
            for dim in (2, 3):
                res.append([deg, [str(x) for x in k], rational, dim, "array"])
    return res


def curve(case, out):
    deg, knots, rational, dim, kind = case
    knots = [F(x) for x in knots]
    ref = sr.Basis(deg, knots)
    poles = make_poles(ref.size, dim, rational)
    if kind == "ints":
        poles = [[x * 4 for x in p] for p in poles]
    inp = as_input(poles, kind)
    kn = [float(x) for x in knots]
    via_raw = (len(knots) + dim) % 2
    if via_raw:
        c = bs.Curve.make_raw(inp, kn, rational, deg)
    else:
        c = bs.Curve(bs.SplineBasis(deg, kn), inp, rational)
    require(c.dim == dim, "dimension is {} instead of {}", c.dim, dim)
    ts = ref.sites()
    exp = [exact(ref, poles, dim, rational, t) for t in ts]
    scale = max(1.0, max(abs(float(x)) for p in poles for x in p))
    for t, e in zip(ts, exp):
        out.transitions += 1
        v = c.eval(float(t))
        require(np.shape(v) == (dim,), "eval returned shape {}", np.shape(v))
        require(np.allclose(v, [float(x) for x in e], rtol=0, atol=TOL * scale), "degree {} {}curve at {} is {} instead of {}",
                deg, "rational " if rational else "", float(t), list(v), [float(x) for x in e])
    arr = c.eval_array(np.array([float(t) for t in ts]))
    require(np.shape(arr) == (len(ts), dim), "eval_array returned shape {}", np.shape(arr))
    require(np.allclose(arr, np.array([[float(x) for x in e] for e in exp]), rtol=0, atol=TOL * scale), "eval_array differs from the curve")
    # the polynomial of an interval evaluated at both its ends
    for k, a, b in ref.ints:
        for t in (a, b)[:1 if deg == 0 else 2]:       # a degree 0 piece does not own its right end
            v = c.eval_local(float(t), k - deg)
            e = exact(ref, poles, dim, rational, t, interval=k)
            require(np.allclose(v, [float(x) for x in e], rtol=0, atol=TOL * scale), "eval_local at {} in interval {} is {} instead of {}",
                    float(t), k - deg, list(v), [float(x) for x in e])
    # clamped ends
    if deg:
        for t, p in ((ref.domain[0], poles[0]), (ref.domain[1], poles[-1])):
            require(np.allclose(c.eval(float(t)), [float(x) for x in p[:dim]], rtol=0, atol=TOL * scale), "end of curve is not its end pole")
    require(np.array_equal(np.array(inp, dtype=float), np.array([[float(x) for x in p] for p in poles])), "evaluation changed the given poles")
    require(np.array_equal(c.poles, np.array([[float(x) for x in p] for p in poles])), "poles of the curve changed")
    for t in (float(ref.domain[0]) - 0.5, float(ref.domain[1]) + 0.5):
        try:
            c.eval(t)
        except IndexError:
            continue
        require(False, "parameter {} out of the domain is evaluated", t)
    if isinstance(inp, np.ndarray):
        inp += 5
        require(np.array_equal(c.poles, np.array([[float(x) for x in p] for p in poles])), "a later change of the given poles changed the curve")
        arr = c.eval_array(np.array([float(t) for t in ts]))
        require(np.allclose(arr, np.array([[float(x) for x in e] for e in exp]), rtol=0, atol=TOL * scale), "a later change of the given poles changed the points")
    out.states += 1
    out.outcomes.add((deg, len(ref.ints), rational, dim))


def explore(ctx):
    ctx.bound("degree up to {}, up to {} knot intervals, all interior multiplicities, dimensions 1-4, plain and rational; degrees up to 8 with up to {} intervals".format(
        ctx.pick(4, 5), ctx.pick(3, 4), ctx.pick(40, 150)))
    ctx.each("curve", cases(ctx), curve, chunk=8)


def replay(case):
    curve(case["case"], core.Out())
