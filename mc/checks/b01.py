"""B01: basis functions are the B-spline basis of their knot vector."""
from fractions import Fraction as F

from bgem.bspline import bspline as bs

from .. import core
from .. import spline_ref as sr
from ..core import require

LEVEL = "model_checking"
ASSUMPTIONS = ["knot vectors are clamped, interior multiplicities up to the degree"]
TOL = 1e-9


def cases(ctx):
    res = []
    for deg in range(0, ctx.pick(5, 6)):
        for n in range(1, ctx.pick(5, 6)):
            gaps = sr.FAR_GAPS if n < 3 else sr.GAPS + (sr.FAR_GAPS[3],) if n < 4 else (sr.GAPS[0], sr.FAR_GAPS[3])
            for k in sr.knot_vectors(deg, n, gaps, sr.STARTS + (sr.FAR,) if n < 3 else (sr.STARTS[0], sr.FAR)):
                if deg == 4 and n > 2 and ctx.quick and max(k.count(x) for x in k[5:-5] or [0]) > 2:
                    continue
                res.append([deg, [str(x) for x in k]])
    return res


def long_cases(ctx):
    for deg, k in sr.long_vectors(lengths=ctx.pick((1, 7, 8, 9, 33, 150), (1, 2, 7, 8, 9, 16, 17, 33, 64, 150, 300))):
        yield [deg, [str(x) for x in k]]


def functions(b, k, deg):
    """All functions, of long bases those around knot interval k and at the ends."""
    if b.size <= 40:
        return range(b.size)
    return sorted({i for i in range(k - deg - 3, k + 4) if 0 <= i < b.size} | {0, 1, b.size - 2, b.size - 1})


def near(a, b, scale=1.0):
    return abs(float(a) - float(b)) <= TOL * scale


def basis_eval(case, out):
    deg, knots = case[0], [F(x) for x in case[1]]
    ref = sr.Basis(deg, knots)
    b = bs.SplineBasis(deg, [float(x) for x in knots])
    require(b.size == ref.size and b.degree == deg, "size is {} instead of {}", b.size, ref.size)
    require(tuple(b.domain) == tuple(float(x) for x in ref.domain), "domain is {}", b.domain)
    require(near(b.domain_size, ref.domain[1] - ref.domain[0]), "domain size is {}", b.domain_size)
    for i in range(b.size):
        sup = b.fn_supp(i)
        require(tuple(sup) == (float(knots[i]), float(knots[i + deg + 1])), "support of function {} is {}", i, sup)
    for t in ref.sites(3 if b.size <= 40 else 1):
        tf = float(t)
        out.transitions += 1
        require(b.in_domain(tf), "{} is not in domain", tf)
        require(b.check(tf) == tf, "check moved {} to {}", tf, b.check(tf))
        exp = ref.vector(t)
        for i in functions(b, ref.interval(t), deg):
            v = b.eval(i, tf)
            require(near(v, exp[i]), "function {} at {} is {} instead of {}", i, tf, v, float(exp[i]))
        idx = b.find_knot_interval(tf)
        k = ref.interval(t)
        require(idx == k - deg, "interval of {} is {} instead of {}", tf, idx, k - deg)
        lo, hi = b.knot_interval_bounds(idx)
        require(lo <= tf <= hi and lo < hi, "bounds of interval {} are {} at {}", idx, (lo, hi), tf)
        require(all(e == 0 or idx <= i <= idx + deg for i, e in enumerate(exp)), "reference")
        for name in ("eval_vector", "eval_base_vector"):
            fn = getattr(b, name, None)
            if fn is None:
                continue
            v = fn(idx, tf)
            require(len(v) == deg + 1, "{} returned {} values", name, len(v))
            for j in range(deg + 1):
                require(near(v[j], exp[idx + j]), "{}({}, {})[{}] is {} instead of {}", name, idx, tf, j, v[j], float(exp[idx + j]))
            require(near(sum(v), 1), "{} at {}: sum of basis functions is {}", name, tf, sum(v))
    # outside
    span = float(ref.domain[1] - ref.domain[0])
    for t, inside in ((ref.domain[0], 0), (ref.domain[1], 1)):
        tf = float(t)
        for d in (1e-15, 1e-14):
            x = tf - d if not inside else tf + d
            require(b.check(x) == tf or x == tf, "tiny perturbation {} of the domain end {} is fixed to {}", x, tf, b.check(x))
        for d in (1e-3, 1.0):
            x = tf - d if not inside else tf + d
            require(not b.in_domain(x), "{} is in domain {}", x, tuple(b.domain))
            try:
                b.check(x)
            except IndexError:
                continue
            require(False, "parameter {} out of domain {} is accepted", x, tuple(b.domain))
    out.states += 1


def explore(ctx):
    ctx.bound("degrees up to {}, up to {} intervals of 5 lengths with all multiplicities; degrees up to 8 with up to {} intervals".format(
        ctx.pick(4, 5), ctx.pick(4, 5), ctx.pick(150, 300)))
    ctx.each("basis", cases(ctx), basis_eval, chunk=8)
    ctx.each("long", long_cases(ctx), basis_eval, chunk=1)


def replay(case):
    basis_eval(case["case"], core.Out())
