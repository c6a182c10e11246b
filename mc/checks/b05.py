"""B05: surfaces are what their poles, weights and knots define; copies are independent."""
import itertools
from fractions import Fraction as F

import numpy as np
from bgem.bspline import bspline as bs

from .. import core
from .. import spline_ref as sr
from ..core import require
from .b04 import pole, weight, TOL

LEVEL = "model_checking"
ASSUMPTIONS = ["clamped knot vectors, interior multiplicities up to the degree, positive weights"]


def kvs(deg, quick):
    """Representative knot vectors of one direction: 1-3 intervals, uneven, with a multiple interior knot, shifted."""
    res = [sr_k(deg, (1,)), sr_k(deg, (2, 1)), sr_k(deg, (1, 1, 2), start=F(-1, 2))]
    if deg > 1:
        res.append(sr_k(deg, (1, 2), mult=deg))
        res.append(sr_k(deg, (1, F(1, 2), 1), mult=2, start=F(3)))
    if deg in (1, 2) or not quick:
        res.append(sr_k(deg, (1, F(1, 2 ** 20), 4096), start=sr.FAR))
    if not quick:
        res.append(sr_k(deg, (1, 3, 1, 2)))
        res.append(sr_k(deg, (F(1, 4), F(1, 2), F(1, 4))))
    return res


def sr_k(deg, gaps, mult=1, start=F(0)):
    k, t = [start] * (deg + 1), start
    for i, g in enumerate(gaps):
        t += g
        k += [t] * (deg + 1 if i == len(gaps) - 1 else (mult if i == 0 else 1))
    return [F(x) for x in k]


def make_poles(nu, nv, dim, rational):
    return [[[pole(i + 2 * j, d + j, i * j) for d in range(dim)] + ([weight(i + 2 * j, i * j)] if rational else []) for j in range(nv)] for i in range(nu)]


def cases(ctx):
    for du in range(0, ctx.pick(4, 5)):
        for dv in range(0, ctx.pick(4, 5)):
            for ku in kvs(du, ctx.quick):
                for kv in kvs(dv, ctx.quick):
                    for rational in (False, True):
                        for dim in (1, 2, 3):
                            if ctx.quick and dim == 2 and du != dv:
                                continue
                            yield [du, dv, [str(x) for x in ku], [str(x) for x in kv], rational, dim]
    # many patches in one direction, higher degrees
    for deg, k in sr.long_vectors(range(0, ctx.pick(6, 9)), ctx.pick((1, 9, 33), (1, 2, 8, 9, 17, 33, 80))):
        for other in (1, 2):
            for rational in (False, True):
                a, b = [str(x) for x in k], [str(x) for x in sr_k(other, (2, 1))]
                yield [deg, other, a, b, rational, 3]
                yield [other, deg, b, a, rational, 3]


def exact(ru, rv, poles, dim, rational, u, v):
    wu, wv = ru.vector(u), rv.vector(v)
    s, tot = [F(0)] * dim, F(0)
    for i, a in enumerate(wu):
        if a == 0:
            continue
        for j, b in enumerate(wv):
            if b == 0:
                continue
            p = poles[i][j]
            w = a * b * (p[dim] if rational else 1)
            tot += w
            for d in range(dim):
                s[d] += w * p[d]
    return [x / tot for x in s] if rational else s


def surface(case, out):
    du, dv, ku, kv, rational, dim = case
    ku, kv = [F(x) for x in ku], [F(x) for x in kv]
    ru, rv = sr.Basis(du, ku), sr.Basis(dv, kv)
    poles = make_poles(ru.size, rv.size, dim, rational)
    fl = [[[float(x) for x in p] for p in row] for row in poles]
    fku, fkv = [float(x) for x in ku], [float(x) for x in kv]
    inp = fl if (ru.size + rv.size) % 2 else np.array(fl)
    if (ru.size + dim) % 2:
        s = bs.Surface.make_raw(inp, (fku, fkv), rational, (du, dv))
    else:
        s = bs.Surface((bs.SplineBasis(du, fku), bs.SplineBasis(dv, fkv)), inp, rational)
    require(s.dim == dim, "dimension is {} instead of {}", s.dim, dim)
    us, vs = [F(float(u)) for u in ru.sites(2)], rv.sites(1)      # exactly the parameters passed
    pts = [(u, v) for u in us for v in vs]
    exp = np.array([[float(x) for x in exact(ru, rv, poles, dim, rational, u, v)] for u, v in pts])
    uv = np.array([[float(u), float(v)] for u, v in pts])

    def same(surf, what):
        for (u, v), e in zip(uv, exp):
            out.transitions += 1
            r = surf.eval(u, v)
            require(np.shape(r) == (dim,), "eval returned shape {}", np.shape(r))
            require(np.allclose(r, e, rtol=0, atol=TOL), "{} of degrees {} {}at {} is {} instead of {}", what, (du, dv),
                    "rational " if rational else "", (u, v), list(r), list(e))
        before = uv.copy()
        r = surf.eval_array(uv)
        require(np.array_equal(uv, before), "eval_array changed its argument")
        require(np.shape(r) == exp.shape and np.allclose(r, exp, rtol=0, atol=TOL), "eval_array of {} differs", what)

    same(s, "surface")
    require(np.array_equal(np.array(inp, dtype=float), np.array(fl)), "given poles were changed")
    for u, v in ((float(ru.domain[0]) - 0.5, uv[0][1]), (float(ru.domain[1]) + 0.5, uv[0][1]), (uv[0][0], float(rv.domain[0]) - 0.5),
                 (uv[0][0], float(rv.domain[1]) + 0.5)):
        try:
            s.eval(u, v)
        except IndexError:
            continue
        require(False, "parameters {} out of the domain are evaluated", (u, v))
    if isinstance(inp, np.ndarray):
        inp += 5
        same(s, "surface whose given poles were changed later")
    c = s.deep_copy()
    same(c, "copy")
    c.poles += 1.0
    same(s, "surface whose copy was changed")
    c = s.deep_copy()
    s.poles *= 2.0
    if not rational:
        same(c, "copy of a surface changed later")
    else:
        require(np.array_equal(c.poles, np.array(fl)), "change of the surface changed its copy")
    out.states += 1
    out.outcomes.add((du, dv, len(ru.ints), len(rv.ints), rational, dim))


def explore(ctx):
    ctx.bound("degrees 0-{0} x 0-{0}, {1} knot vectors in each direction, dimensions 1-3, plain and rational; knots, ends and inner parameters; degrees up to {3} and up to {2} intervals in one direction".format(
        ctx.pick(3, 4), ctx.pick("3-5", "5-7"), ctx.pick(33, 80), ctx.pick(5, 8)))
    ctx.each("surface", cases(ctx), surface, chunk=4)


def replay(case):
    surface(case["case"], core.Out())
