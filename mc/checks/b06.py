"""B06: bounding boxes contain the pieces of curves and surfaces, box trees find all of them."""
import itertools
from fractions import Fraction as F

import bih
import numpy as np
from bgem.bspline import bspline as bs

from .. import core
from .. import spline_ref as sr
from ..core import require
from . import b04, b05

LEVEL = "model_checking"
ASSUMPTIONS = ["positive weights", "trees need three dimensional poles (the box tree package is three dimensional)"]
EPS = 1e-9


def curve_cases(ctx):
    for deg in range(1, ctx.pick(4, 5)):
        for n in range(1, ctx.pick(4, 5)):
            for k in sr.knot_vectors(deg, n, sr.GAPS[:2], sr.STARTS[:1]):
                for rational in (False, True):
                    for dim in (1, 2, 3):
                        yield [deg, [str(x) for x in k], rational, dim]
    for deg, k in sr.long_vectors(range(1, 8), ctx.pick((1, 9, 33), (1, 2, 8, 9, 17, 33, 150))):
        for rational in (False, True):
            yield [deg, [str(x) for x in k], rational, 3]


def inside(lo, hi, p):
    return all(a - EPS <= x <= b + EPS for a, x, b in zip(lo, p, hi))


def overlap(a, b):
    return all(a[0][d] <= b[1][d] and b[0][d] <= a[1][d] for d in range(3))


def queries():
    for c in itertools.product((-2.1, -1.0, 0.3, 1.7), repeat=3):
        for r in (0.05, 0.6):
            yield [[x - r for x in c], [x + r for x in c]]
    yield [[-9.0] * 3, [9.0] * 3]
    yield [[5.0] * 3, [6.0] * 3]


def tree_check(tree, boxes, what):
    """The tree returns every box intersected by the query, whatever else."""
    for q in queries():
        got = set(int(i) for i in tree.find_box(bih.AABB(q)))
        must = {i for i, b in enumerate(boxes) if overlap(q, (b.min(), b.max()))}
        require(must <= got, "{}: boxes {} intersecting {} are not found", what, sorted(must - got), q)
        require(all(0 <= i < len(boxes) for i in got), "{}: unknown boxes {} found", what, got)
        require(all(overlap([[x - 1e-6 for x in q[0]], [x + 1e-6 for x in q[1]]], (boxes[i].min(), boxes[i].max())) for i in got),
                "{}: boxes {} do not intersect {}", what, sorted(got - must), q)


def curve(case, out):
    deg, knots, rational, dim = case
    knots = [F(x) for x in knots]
    ref = sr.Basis(deg, knots)
    poles = b04.make_poles(ref.size, dim, rational, n=deg)
    c = bs.Curve(bs.SplineBasis(deg, [float(x) for x in knots]), [[float(x) for x in p] for p in poles], rational)
    box = np.array(c.aabb())
    require(box.shape == (2, dim), "box of a {}d curve has shape {}", dim, box.shape)
    cols = [[float(p[d]) for p in poles] for d in range(dim)]
    require(np.allclose(box, [[min(x) for x in cols], [max(x) for x in cols]]), "box {} is not the box of the poles", box.tolist())
    pts = []
    for k, a, b in ref.ints:
        for j in range(7):
            t = a + (b - a) * F(j, 6)
            p = [float(x) for x in b04.exact(ref, poles, dim, rational, t, interval=k)]
            require(inside(box[0], box[1], p), "point {} of the curve at {} is out of its box {}", p, float(t), box.tolist())
            pts.append((k - deg, float(t), p))
            out.transitions += 1
    if dim == 3:
        boxes, tree = c.boxes, c.tree
        require(len(boxes) == c.basis.n_intervals, "{} boxes of {} intervals", len(boxes), c.basis.n_intervals)
        for it, t, p in pts:
            require(inside(boxes[it].min(), boxes[it].max(), p), "point of interval {} is out of its box", it)
            require(it in set(int(i) for i in tree.find_box(bih.AABB([p, p]))), "interval {} not found at its point {}", it, p)
        tree_check(tree, boxes, "curve")
    out.states += 1
    out.outcomes.add((deg, len(ref.ints), rational, dim))


def surf_cases(ctx):
    for du in range(1, 4):
        for dv in range(1, 4):
            for ku in b05.kvs(du, ctx.quick):
                for kv in b05.kvs(dv, ctx.quick):
                    for rational in (False, True):
                        yield [du, dv, [str(x) for x in ku], [str(x) for x in kv], rational, 1]
                        yield [du, dv, [str(x) for x in ku], [str(x) for x in kv], rational, 3]
    for deg, k in sr.long_vectors(range(1, 8), ctx.pick((1, 9, 33), (1, 2, 8, 9, 17, 33, 80))):
        for other in (1, 2):
            a, b = [str(x) for x in k], [str(x) for x in b05.sr_k(other, (2, 1))]
            for rational in (False, True):
                yield [deg, other, a, b, rational, 3]
                yield [other, deg, b, a, rational, 3]


def surface(case, out):
    du, dv, ku, kv, rational, dim = case
    ku, kv = [F(x) for x in ku], [F(x) for x in kv]
    ru, rv = sr.Basis(du, ku), sr.Basis(dv, kv)
    poles = b05.make_poles(ru.size, rv.size, dim, rational)
    s = bs.Surface((bs.SplineBasis(du, [float(x) for x in ku]), bs.SplineBasis(dv, [float(x) for x in kv])),
                   [[[float(x) for x in p] for p in row] for row in poles], rational)
    box = np.array(s.aabb())
    flat = np.array([[float(x) for x in p[:dim]] for row in poles for p in row])
    require(box.shape == (2, dim) and np.allclose(box, [flat.min(axis=0), flat.max(axis=0)]), "box {} is not the box of the poles", box.tolist())
    nu, nv = s.u_basis.n_intervals, s.v_basis.n_intervals
    ids = {}
    for iu in range(nu):
        for iv in range(nv):
            i = s.patch_pos2id(iu, iv)
            require(i not in ids and 0 <= i < nu * nv, "patch {} has id {}", (iu, iv), i)
            ids[i] = (iu, iv)
            require(tuple(s.patch_id2pos(i)) == (iu, iv), "patch {} of id {} is returned as {}", (iu, iv), i, s.patch_id2pos(i))
    if dim == 3:
        boxes, tree = s.boxes, s.tree
        require(len(boxes) == nu * nv, "{} boxes of {} patches", len(boxes), nu * nv)
        for k, a, b in ru.ints:
            for l, e, f in rv.ints:
                i = s.patch_pos2id(k - du, l - dv)
                lo, hi = boxes[i].min(), boxes[i].max()
                loc = np.array([[float(x) for x in poles[p][q][:3]] for p in range(k - du, k + 1) for q in range(l - dv, l + 1)])
                require(np.allclose([lo, hi], [loc.min(axis=0), loc.max(axis=0)]), "box of patch {} is not the box of its poles", (k - du, l - dv))
                for x in range(3):
                    for y in range(3):
                        u, v = float(a + (b - a) * F(x + 1, 4)), float(e + (f - e) * F(y + 1, 4))
                        p = s.eval(u, v)
                        out.transitions += 1
                        require(inside(lo, hi, p), "point {} of patch {} is out of its box", list(p), (k - du, l - dv))
                        require(i in set(int(z) for z in tree.find_box(bih.AABB([list(p), list(p)]))), "patch {} is not found at its point", i)
        tree_check(tree, boxes, "surface")
    out.states += 1
    out.outcomes.add((du, dv, len(ru.ints), len(rv.ints), rational, dim))


def numbering(case, out):
    """Ids of patches of a grid are its numbers 0..n-1, each for one position."""
    nu, nv = case
    s = bs.Surface((bs.SplineBasis.make_equidistant(1, nu), bs.SplineBasis.make_equidistant(1, nv)), np.zeros((nu + 1, nv + 1, 3)))
    ids = {}
    for iu in range(nu):
        for iv in range(nv):
            i = s.patch_pos2id(iu, iv)
            require(i == int(i) and 0 <= i < nu * nv and i not in ids, "patch {} of {} x {} has id {}", (iu, iv), nu, nv, i)
            ids[i] = (iu, iv)
            require(tuple(s.patch_id2pos(i)) == (iu, iv), "patch {} of {} x {} with id {} is returned as {}", (iu, iv), nu, nv, i, s.patch_id2pos(i))
            out.transitions += 1
    out.states += 1
    out.outcomes.add((nu, nv))


def number_cases(ctx):
    top = ctx.pick(24, 64)
    return [[u, v] for u in range(1, top + 1) for v in range(1, top + 1)] + [[u, v] for v in range(top + 1, ctx.pick(200, 1000)) for u in (1, 2, 3)] + [
        [u, v] for u in range(top + 1, ctx.pick(200, 1000)) for v in (1, 2, 3)]


def explore(ctx):
    ctx.bound("curves: degree 1-{}, up to {} intervals with all multiplicities; surfaces: degrees 1-3 x 1-3; {} query boxes; degrees up to 7 with up to {} intervals".format(
        ctx.pick(3, 4), ctx.pick(3, 4), len(list(queries())), ctx.pick(33, 80)))
    ctx.each("curve", curve_cases(ctx), curve, chunk=8)
    ctx.each("surface", surf_cases(ctx), surface, chunk=4)
    ctx.each("numbering", number_cases(ctx), numbering, chunk=16)


def replay(case):
    {"curve": curve, "surface": surface, "numbering": numbering}[case["space"]](case["case"], core.Out())
