"""B03: knot vectors: equidistant, packed and unpacked; poles of the identity."""
from fractions import Fraction as F

import numpy as np
from bgem.bspline import bspline as bs

from .. import core
from .. import spline_ref as sr
from ..core import require
from . import b01

LEVEL = "model_checking"
ASSUMPTIONS = ["knots are exactly representable or equidistant"]


def equi(case, out):
    deg, n, lo, hi = case[:4]
    rng = [lo, hi]
    b = bs.SplineBasis.make_equidistant(deg, n, knot_range=rng) if len(case) < 5 else bs.SplineBasis.make_equidistant(deg, n)
    require(rng == [lo, hi], "the range was changed")
    exp = [lo] * (deg + 1) + [lo + (hi - lo) * F(i, n) for i in range(1, n)] + [hi] * (deg + 1)
    require(len(b.knots) == len(exp), "{} knots instead of {}", len(b.knots), len(exp))
    for k, e in zip(b.knots, exp):
        require(abs(float(k) - float(e)) < 1e-12 * max(1, abs(lo), abs(hi)), "equidistant knots of degree {} with {} intervals on {}: {}",
                deg, n, (lo, hi), list(b.knots))
    require(b.n_intervals == n and b.size == n + deg, "{} intervals, size {}", b.n_intervals, b.size)
    require(b.knots[0] == lo and b.knots[-1] == hi, "ends of the range are {}", (b.knots[0], b.knots[-1]))
    out.states += 1
    out.transitions += 1


def pack(case, out):
    deg, knots = case[0], [F(x) for x in case[1]]
    b = bs.SplineBasis(deg, [float(k) for k in knots])
    p = b.pack_knots()
    exp = []
    for k in knots:
        if exp and exp[-1][0] == k:
            exp[-1][1] += 1
        else:
            exp.append([k, 1])
    require([[float(k), m] for k, m in p] == [[float(k), m] for k, m in exp], "packed knots of {} are {}", case[1], p)
    c = bs.SplineBasis.make_from_packed_knots(deg, p)
    require(c.degree == deg and list(c.knots) == list(b.knots), "unpacking {} gives {}", p, list(c.knots))
    out.states += 1
    out.transitions += 2
    if deg >= 1:
        poles = b.make_linear_poles()
        ref = sr.Basis(deg, knots)
        require(len(poles) == b.size, "{} linear poles instead of {}", len(poles), b.size)
        for t in ref.sites():
            v = sum(float(q) * float(x) for q, x in zip(ref.vector(t), poles))
            require(abs(v - float(t)) < 1e-9, "function given by linear poles has value {} in {}", v, float(t))
        out.transitions += 1


def explore(ctx):
    ctx.each("equidistant", [[d, n, lo, hi] for d in range(0, 6) for n in range(1, ctx.pick(13, 60)) for lo, hi in
                             ((0.0, 1.0), (-1.0, 2.0), (0.25, 7.5), (0, 1), (-2, 1), (3, 10))] +
             [[d, n, 0.0, 1.0, "default"] for d in range(0, 6) for n in range(1, 13)], equi)
    ctx.each("equidistant", [[d, n, lo, hi] for d in range(0, 9) for n in (6, 13, 20, 50, 101, 256, 1000) for lo, hi in ((0.0, 1.0), (-700000, -695904))], equi)
    ctx.each("pack", b01.cases(ctx), pack, chunk=16)
    ctx.each("pack", b01.long_cases(ctx), pack, chunk=1)


def replay(case):
    (equi if case["space"] == "equidistant" else pack)(case["case"], core.Out())
