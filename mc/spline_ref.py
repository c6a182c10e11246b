"""
Exact reference of B-spline bases: every basis function is kept as an explicit polynomial (rational coefficients)
on every non empty knot interval, built by the Cox-de Boor recursion on polynomials.  No code shared with bgem.
"""
import functools
import itertools
from fractions import Fraction as F


def padd(a, b):
    n = max(len(a), len(b))
    return tuple((a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0) for i in range(n))


def pmul(a, b):
    r = [F(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return tuple(r)


def peval(a, t):
    r = F(0)
    for c in reversed(a):
        r = r * t + c
    return r


def pdiff(a):
    return tuple(i * c for i, c in enumerate(a))[1:] or (F(0),)


class Basis:
    def __init__(self, degree, knots):
        self.deg = degree
        self.knots = tuple(F(k) for k in knots)
        self.size = len(knots) - degree - 1
        # non empty intervals of the domain
        k = self.knots
        self.ints = [(i, k[i], k[i + 1]) for i in range(degree, len(k) - degree - 1) if k[i] < k[i + 1]]
        self.domain = (k[degree], k[-degree - 1])
        self.poly = {}
        self.cache = {}
        for i, _, _ in self.ints:
            for b in range(i - degree, i + 1):      # the others are zero there
                self.poly[b, i] = self._p(degree, b, i)

    @functools.lru_cache(maxsize=None)
    def _p(self, d, b, i):
        """Polynomial of the b-th function of degree d on knot interval i."""
        k = self.knots
        if d == 0:
            return (F(1),) if b == i else (F(0),)
        r = (F(0),)
        if k[b + d] != k[b]:
            w = k[b + d] - k[b]
            r = padd(r, pmul((-k[b] / w, 1 / w), self._p(d - 1, b, i)))
        if k[b + d + 1] != k[b + 1]:
            w = k[b + d + 1] - k[b + 1]
            r = padd(r, pmul((k[b + d + 1] / w, -1 / w), self._p(d - 1, b + 1, i)))
        return r

    def interval(self, t):
        """Knot index of the interval owning t: right continuous, the end of the domain belongs to the last one."""
        for i, a, b in self.ints:
            if a <= t < b:
                return i
        return self.ints[-1][0]

    def eval(self, b, t, diff=False, interval=None):
        t = F(t)
        p = self.poly.get((b, self.interval(t) if interval is None else interval))
        if p is None:
            return F(0)
        return peval(pdiff(p) if diff else p, t)

    def vector(self, t, diff=False):
        t = F(t)
        if (t, diff) not in self.cache:
            i = self.interval(t)
            self.cache[t, diff] = tuple(self.eval(b, t, diff, i) if i - self.deg <= b <= i else F(0) for b in range(self.size))
        return list(self.cache[t, diff])

    def greville(self):
        return [sum(self.knots[b + 1: b + self.deg + 1]) / self.deg for b in range(self.size)]

    def sites(self, fine=3):
        """Knots, interior points of intervals."""
        res = []
        for _, a, b in self.ints:
            res.append(a)
            res += [a + (b - a) * F(j, fine + 1) for j in range(1, fine + 1)]
        res.append(self.domain[1])
        return res


GAPS = (F(1), F(1, 2), F(2))
FAR_GAPS = GAPS + (F(1, 2 ** 20), F(4096))
STARTS = (F(0), F(-3), F(5, 2))
FAR = F(700000)      # e.g. geographic coordinates; all values stay exactly representable


def knot_vectors(degree, n_int, gaps=GAPS, starts=STARTS, mults=True):
    """All clamped knot vectors with the given number of non empty intervals, gaps and interior multiplicities."""
    for start in starts:
        for g in itertools.product(gaps, repeat=n_int):
            for m in itertools.product(range(1, (degree if mults else 1) + 1) or (1,), repeat=n_int - 1):
                k = [start] * (degree + 1)
                t = start
                for j in range(n_int):
                    t = t + g[j]
                    k += [t] * (m[j] if j < n_int - 1 else degree + 1)
                yield k


def long_vectors(degrees=range(0, 9), lengths=(7, 8, 9, 16, 17, 33, 64, 150)):
    """[degree, knots]: higher degrees and many intervals, uneven, single knots and repeated ones."""
    for deg in degrees:
        for n in lengths:
            for gaps, mult in (((F(1),), (1,)), ((F(1), F(1, 2), F(2), F(3)), (1, 1, 2, 1, 3))):
                t = F(-3)
                k = [t] * (deg + 1)
                for j in range(n):
                    t += gaps[j % len(gaps)]
                    k += [t] * (max(1, min(mult[j % len(mult)], deg)) if j < n - 1 else deg + 1)
                yield [deg, k]
