"""B02: derivatives of basis functions."""
from fractions import Fraction as F

from bgem.bspline import bspline as bs

from .. import core
from .. import spline_ref as sr
from ..core import require
from . import b01

LEVEL = "model_checking"
ASSUMPTIONS = ["at knots where the derivative jumps the value of the interval to the right (at the end of the domain: to the left) is expected",
               "knot vectors are clamped, interior multiplicities up to the degree"]


def diff_eval(case, out):
    deg, knots = case[0], [F(x) for x in case[1]]
    ref = sr.Basis(deg, knots)
    b = bs.SplineBasis(deg, [float(x) for x in knots])
    for t in ref.sites(3 if b.size <= 40 else 1):
        tf = float(t)
        out.transitions += 1
        exp = ref.vector(t, diff=True)
        for i in b01.functions(b, ref.interval(t), deg):
            v = b.eval_diff(i, tf)
            require(b01.near(v, exp[i], 10), "derivative of function {} at {} is {} instead of {}", i, tf, v, float(exp[i]))
        idx = b.find_knot_interval(tf)
        for name in ("eval_diff_vector", "eval_diff_base_vector"):
            fn = getattr(b, name, None)
            if fn is None:
                continue
            v = fn(idx, tf)
            require(len(v) == deg + 1, "{} returned {} values", name, len(v))
            for j in range(deg + 1):
                require(b01.near(v[j], exp[idx + j], 10), "{}({}, {})[{}] is {} instead of {}", name, idx, tf, j, v[j], float(exp[idx + j]))
            require(b01.near(sum(v), 0, 10), "sum of derivatives at {} is {}", tf, sum(v))
    out.states += 1


def explore(ctx):
    ctx.bound("degrees up to {}, up to {} intervals of 5 lengths with all multiplicities; degrees up to 8 with up to {} intervals".format(
        ctx.pick(4, 5), ctx.pick(4, 5), ctx.pick(150, 300)))
    ctx.each("diff", b01.cases(ctx), diff_eval, chunk=8)
    ctx.each("long", b01.long_cases(ctx), diff_eval, chunk=1)


def replay(case):
    diff_eval(case["case"], core.Out())
