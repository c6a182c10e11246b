"""R02: geometry in the written file is exactly that of the model: curves, surfaces, lines of edges, surfaces and 2D curves of faces."""
import itertools
import os
from fractions import Fraction as F

import numpy as np
from bgem.bspline import brep_writer as bw
from bgem.bspline import bspline as bs

from .. import core
from .. import brep_harness as bh
from .. import spline_ref as sr
from ..core import require
from . import b04, b05, r01

LEVEL = "model_checking"
ASSUMPTIONS = ["degrees at least 1 (BREP has no discontinuous curves), poles of size up to 1e6",
               "the rational convention is the one of OCC: plain points and weights"]


def flt(x):
    return [flt(y) for y in x] if isinstance(x, (list, tuple)) else float(x)


def packed(knots):
    return [(float(k), len(list(g))) for k, g in itertools.groupby(knots)]


def scratch(name):
    return os.path.join(os.environ.get("MC_SCRATCH", "/tmp"), "{}-{}.brep".format(name, os.getpid()))


# ---------------------------------------------------------------- curves
def curve_cases(ctx):
    for deg in range(1, ctx.pick(4, 5)):
        for n in range(1, ctx.pick(4, 5)):
            for k in sr.knot_vectors(deg, n, sr.GAPS if n < 3 else sr.GAPS[:2], sr.STARTS[:2]):
                for rational in (0, 1):
                    for dim in (2, 3):
                        for how in ("bs", "direct"):
                            yield [deg, [str(x) for x in k], rational, dim, how]


def make_curve(deg, knots, rational, dim, how, poles=None):
    ref = sr.Basis(deg, knots)
    poles = poles or flt(b04.make_poles(ref.size, dim, rational))
    pk = packed(knots)
    if how == "bs":
        c = bs.Curve(bs.SplineBasis(deg, [float(x) for x in knots]), np.array(poles), bool(rational))
        obj = bw.curve_from_bs(c)
    else:
        obj = (bw.Curve2D if dim == 2 else bw.Curve3D)(poles, pk, bool(rational), deg)
    return ref, poles, bh.Curve(obj, dim, rational, deg, poles, pk)


def curve(case, out):
    deg, knots, rational, dim, how = case
    knots = [F(x) for x in knots]
    ref, poles, c = make_curve(deg, knots, rational, dim, how)
    t0, t1 = float(ref.domain[0]), float(ref.domain[1])
    if dim == 3:
        a, b = bh.vertex(poles[0][:3]), bh.vertex(poles[-1][:3])
        e = bh.edge(a, b)
        bh.attach3(e, (t0, t1), c)
        # second edge on a part of the same curve
        ts = [t for t in ref.sites(1)]
        s = ts[len(ts) // 2]
        m = bh.vertex(flt(b04.exact(ref, b04.make_poles(ref.size, dim, rational), dim, rational, s)))
        e2 = bh.edge(a, m)
        bh.attach3(e2, (t0, float(s)), c)
        root = bh.compound([e, e2])
    else:
        # XY plane: image of the curve in it
        pl = bh.Surf(bw.Surface([[[0, 0, 0], [0, 1, 0]], [[1, 0, 0], [1, 1, 0]]], ([(0., 2), (1., 2)], [(0., 2), (1., 2)]), False, (1, 1)),
                     0, (1, 1), [[[0, 0, 0], [0, 1, 0]], [[1, 0, 0], [1, 1, 0]]], ([(0., 2), (1., 2)], [(0., 2), (1., 2)]))
        e = bh.edge(bh.vertex(poles[0][:2] + [0.]), bh.vertex(poles[-1][:2] + [0.]))
        bh.attach2(e, (t0, t1), c, pl)
        root = bh.compound([e])
    text = bh.write(root)
    r = bh.Compare(text, root).r
    tab = r.curves3 if dim == 3 else r.curves2
    require(len(tab) == 1, "{} curves written", len(tab))
    ex = b04.make_poles(ref.size, dim, rational)
    for t in ref.sites(1):
        p = bh.eval_curve(tab[0], float(t))
        q = flt(b04.exact(ref, ex, dim, rational, t))
        require(np.allclose(p, q, rtol=0, atol=1e-9), "written curve goes at {} through {} instead of {}", float(t), p.tolist(), q)
    if dim == 3:
        ents, gmsh = bh.occ_import(text, scratch("curve"))
        tags = [t for d, t in ents if d == 1]
        require(len(tags) == 2, "OCC read {} edges", len(tags))
        for t in ref.sites(1):
            p = gmsh.model.getValue(1, tags[0], [float(t)])
            q = flt(b04.exact(ref, ex, dim, rational, t))
            require(np.allclose(p, q, rtol=0, atol=1e-7), "curve read by OCC goes at {} through {} instead of {}", float(t), list(p), q)
    out.outcomes.add((deg, ref.size, rational, dim))


# ---------------------------------------------------------------- surfaces
def surf_cases(ctx):
    for du in range(1, ctx.pick(4, 5)):
        for dv in range(1, ctx.pick(4, 5)):
            for ku in b05.kvs(du, ctx.quick):
                for kv in b05.kvs(dv, ctx.quick):
                    for rational in (0, 1):
                        yield [du, dv, [str(x) for x in ku], [str(x) for x in kv], rational]


def patch_poles(nu, nv, rational):
    """A graph like surface, not symmetric, no degenerate places."""
    return [[[F(3 * i) + F((i * j) % 3, 4), F(2 * j) - F(i % 2, 2), b04.pole(i, j, i * j)] + ([b04.weight(i + 2 * j, i)] if rational else [])
             for j in range(nv)] for i in range(nu)]


def iso(poles, side):
    """Poles of the boundary curve."""
    if side == "v0":
        return [row[0] for row in poles]
    if side == "v1":
        return [row[-1] for row in poles]
    return list(poles[0]) if side == "u0" else list(poles[-1])


def surf(case, out):
    du, dv, ku, kv, rational = case
    ku, kv = [F(x) for x in ku], [F(x) for x in kv]
    ru, rv = sr.Basis(du, ku), sr.Basis(dv, kv)
    ex = patch_poles(ru.size, rv.size, rational)
    poles = flt(ex)
    s = bs.Surface((bs.SplineBasis(du, flt(ku)), bs.SplineBasis(dv, flt(kv))), np.array(poles), bool(rational))
    sf = bh.Surf(bw.surface_from_bs(s), rational, (du, dv), poles, (packed(ku), packed(kv)))
    (u0, u1), (v0, v1) = flt(ru.domain), flt(rv.domain)
    corner = [bh.vertex(poles[i][j][:3]) for i, j in ((0, 0), (-1, 0), (-1, -1), (0, -1))]
    uv = [(u0, v0), (u1, v0), (u1, v1), (u0, v1)]
    es = []
    for i, side in enumerate(("v0", "u1", "v1", "u0")):
        j = (i + 1) % 4
        deg, kn = (du, ku) if side[0] == "v" else (dv, kv)
        flip = i >= 2
        a, b = (j, i) if flip else (i, j)
        e = bh.edge(corner[a], corner[b])
        ref, _, c3 = make_curve(deg, kn, rational, 3, "bs", poles=flt(iso(ex, side)))
        bh.attach3(e, flt(ref.domain), c3)
        lk = [ref.domain[0]] * 2 + [ref.domain[1]] * 2
        _, _, c2 = make_curve(1, lk, 0, 2, "bs", poles=[list(uv[a]), list(uv[b])])
        bh.attach2(e, flt(ref.domain), c2, sf)
        es.append((e, 2 if flip else 1))
    f = bh.face(es, surface=sf)
    root = bh.compound([f])
    text = bh.write(root)
    r = bh.Compare(text, root).r
    require(len(r.surfaces) == 1, "{} surfaces written", len(r.surfaces))
    sites = [(u, v) for u in ru.sites(1) for v in rv.sites(1)]
    exact = {(u, v): flt(b05.exact(ru, rv, ex, 3, rational, u, v)) for u, v in sites}
    for u, v in sites:
        p = bh.eval_surf(r.surfaces[0], float(u), float(v))
        require(np.allclose(p, exact[u, v], rtol=0, atol=1e-9), "written surface at {} is {} instead of {}", (float(u), float(v)), p.tolist(), exact[u, v])
    ents, gmsh = bh.occ_import(text, scratch("surf"))
    tags = [t for d, t in ents if d == 2]
    require(len(tags) == 1, "OCC read {} faces", len(tags))
    for u, v in sites:
        p = gmsh.model.getValue(2, tags[0], [float(u), float(v)])
        require(np.allclose(p, exact[u, v], rtol=0, atol=1e-7), "surface read by OCC at {} is {} instead of {}", (float(u), float(v)), list(p), exact[u, v])
    out.outcomes.add((du, dv, ru.size, rv.size, rational))


# ---------------------------------------------------------------- implicit geometry
GRID = [list(p) for p in itertools.product((0, 1), repeat=3)] + [[2, 0, -1], [0.5, 3, 0.25]]


def implicit_cases(ctx):
    for n in (3, 4):
        pts = GRID if n == 3 or not ctx.quick else GRID[1:8]
        for c in itertools.permutations(range(len(pts)), n):
            if c[0] != min(c) and (n == 4 or ctx.quick):
                continue
            q = [pts[i] for i in c]
            yield [q, "int"]
    for q in ([[0, 0, 0], [1e6, 0, 0], [1e6, 1e6, 5]], [[0, 0, 0], [1e-2, 0, 0], [0, 1e-2, 1e-2], [0, 1e-2, 0]], [[-1, -1, -1], [0, 0, 0.5], [-3, 1e3, 2]]):
        yield [q, "float"]


def collinear(a, b, c):
    return np.linalg.norm(np.cross(np.subtract(b, a), np.subtract(c, a))) < 1e-12


def area(q, n=24):
    """Area of the bilinear patch (or triangle) by Gauss quadrature."""
    q = np.array(q, dtype=float)
    if len(q) == 3:
        return 0.5 * np.linalg.norm(np.cross(q[1] - q[0], q[2] - q[0]))
    x, w = np.polynomial.legendre.leggauss(n)
    x, w = (x + 1) / 2, w / 2
    s = 0
    for a, wa in zip(x, w):
        for b, wb in zip(x, w):
            du = (1 - b) * (q[1] - q[0]) + b * (q[2] - q[3])
            dv = (1 - a) * (q[3] - q[0]) + a * (q[2] - q[1])
            s += wa * wb * np.linalg.norm(np.cross(du, dv))
    return s


def implicit(case, out):
    q, kind = case
    if any(collinear(*c) for c in itertools.combinations(q, 3)):
        return
    n = len(q)
    if kind == "float":
        q = [[float(x) for x in p] for p in q]
    vs = [bh.vertex(p) for p in q]
    es = [bh.edge(vs[i], vs[(i + 1) % n]) for i in range(n)]
    root = bh.compound([bh.face(es)])
    text = bh.write(root)
    r = bh.Compare(text, root).r
    # the surface passes its corners in the same order
    sc = max(1.0, np.abs(q).max())
    out.outcomes.add((n, str(q)))
    if n == 4:
        # quads folded in their plane are not valid faces
        nrm = [np.cross(np.subtract(q[(i + 1) % 4], q[i]), np.subtract(q[(i + 2) % 4], q[(i + 1) % 4])) for i in range(4)]
        if min(np.dot(a, b) for a, b in itertools.combinations(nrm, 2)) <= 0:
            return
    ents, gmsh = bh.occ_import(text, scratch("impl"))
    tags = [t for d, t in ents if d == 2]
    require(len(tags) == 1 and len([1 for d, t in ents if d == 1]) == n, "OCC read {}", ents)
    m, a = gmsh.model.occ.getMass(2, tags[0]), area(q)
    require(abs(m - a) <= 1e-4 * a, "area read by OCC is {} instead of {}", m, a)
    out.extra["areas compared"] += 1


# ---------------------------------------------------------------- constructors of the writer
def approx_cases(ctx):
    pts2 = [list(p) for p in itertools.product((-1, 0, 2), repeat=2)]
    pts3 = GRID
    for kind in ("list", "tuple", "array"):
        for a, b in itertools.permutations(range(len(pts2)), 2):
            yield ["line2", [pts2[a], pts2[b]], kind]
        for a, b in itertools.permutations(range(len(pts3)), 2):
            yield ["line3", [pts3[a], pts3[b]], kind]
        for c in itertools.permutations(range(len(pts3)), 3):
            if kind == "list" or c[0] < 3:
                yield ["plane", [pts3[i] for i in c], kind]
        for c in itertools.permutations(range(8 if ctx.quick else 10), 4):
            if kind == "list" and c[0] < 3 or c[0] == 0:
                yield ["bilinear", [pts3[i] for i in c], kind]


def as_kind(q, kind):
    return np.array(q, dtype=float) if kind == "array" else (tuple(map(tuple, q)) if kind == "tuple" else [list(p) for p in q])


def curve_data(c):
    return {"rat": int(c.rational), "deg": c.degree, "poles": [list(map(float, p)) for p in c.poles], "knots": list(c.knots)}


def approx(case, out):
    op, q, kind = case
    arg = as_kind(q, kind)
    keep = as_kind(q, kind)
    qa = np.array(q, dtype=float)
    if op.startswith("line"):
        c = bw.Approx.line_2d(arg) if op == "line2" else bw.Approx.line_3d(arg)
        d = curve_data(c)
        for t in (0, .25, .5, 1):
            require(np.allclose(bh.eval_curve(d, t), qa[0] * (1 - t) + qa[1] * t, rtol=0, atol=1e-12), "line at {} is {}", t, bh.eval_curve(d, t))
    else:
        if op == "plane":
            s, uv = bw.Approx.plane(arg)
            quad = [qa[0], qa[1], qa[1] + qa[2] - qa[0], qa[2]]
        else:
            s, uv = bw.Approx.bilinear(arg)
            quad = qa
        d = {"rat": int(s.rational), "deg": s.degree, "poles": [[list(map(float, p)) for p in row] for row in s.poles], "knots": s.knots}
        require(len(uv) == len(q), "{} parameters returned", len(uv))
        for p, (u, v) in zip(qa, uv):
            require(np.allclose(bh.eval_surf(d, u, v), p, rtol=0, atol=1e-12), "point {} is at parameters {} where the surface is {}", p.tolist(), (u, v), bh.eval_surf(d, u, v).tolist())
        for u in (0, .3, .5, 1):
            for v in (0, .7, 1):
                e = (1 - u) * (1 - v) * quad[0] + u * (1 - v) * quad[1] + u * v * quad[2] + (1 - u) * v * quad[3]
                require(np.allclose(bh.eval_surf(d, u, v), e, rtol=0, atol=1e-12), "surface at {} is {} instead of {}", (u, v), bh.eval_surf(d, u, v).tolist(), e.tolist())
    require(np.array_equal(np.array(arg), np.array(keep)), "given points were changed")
    out.outcomes.add((op, str(q)))


# ---------------------------------------------------------------- many curves and surfaces
class Geometry:
    """Every edge a line or a bent curve, every face a bilinear surface with 2D lines."""
    def __init__(self, every):
        self.every, self.n = every, 0

    def edge(self, e):
        self.n += 1
        if self.n % self.every:
            return
        a, b = [list(v.point) for v, _, _ in e.children]
        mid = [(x + y) / 2 + 0.1 for x, y in zip(a, b)]
        poles, deg = ([a, b], 1) if self.n % 2 else ([a, mid, b], 2)
        kn = [(0., deg + 1), (float(self.n), deg + 1)]
        bh.attach3(e, (0., float(self.n)), bh.Curve(bw.Curve3D(poles, kn, False, deg), 3, 0, deg, poles, kn))

    def face(self, ch, corners):
        self.n += 1
        q = [list(v.point) for v in corners]
        poles = [[q[0], q[3]], [q[1], q[2]]]
        kn = [(0., 2), (1., 2)]
        s = bh.Surf(bw.Surface(poles, (kn, kn), False, (1, 1)), 0, (1, 1), poles, (kn, kn))
        uv = [[0., 0.], [1., 0.], [1., 1.], [0., 1.]]
        for i, (e, o) in enumerate(ch):
            a, b = (uv[i], uv[(i + 1) % 4]) if o == 1 else (uv[(i + 1) % 4], uv[i])
            # the range of the 3D curve
            t1 = e.curves[0][1][1] if e.curves else 1.0
            k2 = [(0., 2), (t1, 2)]
            bh.attach2(e, (0., t1), bh.Curve(bw.Curve2D([a, b], k2, False, 1), 2, 0, 1, [a, b], k2), s)
        return {"surface": s}


def many_cases(ctx):
    for n in ctx.pick((1, 2, 4), (1, 2, 4, 6)):
        for every in (1, 3, 10 ** 6):
            for mask in (0, 0b101):
                for kind in ("solids", "faces"):
                    yield [n, every, mask, kind]


def many(case, out):
    n, every, mask, kind = case
    lat = r01.Lattice(mask, Geometry(every))
    cells = list(itertools.product(range(n), repeat=3))
    ch = [bh.solid([bh.shell(lat.cube(p))]) for p in cells] if kind == "solids" else [f for p in cells for f in lat.cube(p)]
    root = bh.compound(ch)
    bh.Compare(bh.write(root), root)
    bh.Compare(bh.write(root), root)
    out.outcomes.add(str(case))


# ---------------------------------------------------------------- refused geometry
def attach_cases(ctx):
    shifts = [[0, 0, 0], [0, 0, 1], [0.5, 0, 0], [0, -2, 0]]
    for what in ("edge3", "edge2", "vertex3", "vertex2", "vertexs"):
        for deg in (1, 2, 3):
            for rational in (0, 1):
                for i, s in enumerate(shifts):
                    for j, z in enumerate(shifts):
                        yield [what, deg, rational, s, z]
                        if deg < 3:
                            yield [what, deg, rational, s, z, "far"]
                        if deg == 2:
                            yield [what, deg, rational, s, z, "large"]
                            yield [what, deg, rational, s, z, "tiny"]
    for deg in (1, 2, 3):
        for npol in range(2, 7):
            for mult in itertools.product((1, 2, 3, 4), repeat=2):
                yield ["knots", deg, npol, list(mult), 0]
    for dim in (1, 2, 3, 4, 5):
        for rational in (0, 1):
            for cls in ("Curve2D", "Curve3D", "Surface"):
                yield ["dim", dim, rational, cls, 0]


def attach(case, out):
    what, deg, rational, s, z = case[:5]
    ok = True
    f, o = {"": (F(1), (F(0),) * 3), "far": (F(1), (F(-700000), F(-1100000), F(300))), "large": (F(4096), (F(0),) * 3),
            "tiny": (F(1, 4096), (F(0),) * 3)}[case[5] if len(case) > 5 else ""]
    mv = lambda x: [f * a + b for a, b in zip(x, o)] + x[3:]
    if what == "knots":
        npol, mult = rational, s
        exp = sum(mult) == npol + deg + 1
        try:
            bw.Curve3D([[float(i), 1., 2.] for i in range(npol)], [(0., mult[0]), (1., mult[1])], False, deg)
        except AssertionError:
            ok = False
        require(ok == exp, "{} poles of degree {} with knot multiplicities {} are {}", npol, deg, mult, "accepted" if ok else "refused")
        try:
            ok = True
            bw.Surface([[[float(i), 1., float(j)] for j in range(npol)] for i in range(2)], ([(0., 2), (1., 2)], [(0., mult[0]), (1., mult[1])]), False, (1, deg))
        except AssertionError:
            ok = False
        require(ok == exp, "surface with {} poles of degree {} with knot multiplicities {} is {}", npol, deg, mult, "accepted" if ok else "refused")
        for w, dim in ((False, 2), (True, 3)):
            try:
                ok = True
                bw.Curve2D([[float(i), 1., 2.][:dim] for i in range(npol)], [(0., mult[0]), (1., mult[1])], w, deg)
            except AssertionError:
                ok = False
            require(ok == exp, "2d curve with {} poles of degree {} with knot multiplicities {} is {}", npol, deg, mult, "accepted" if ok else "refused")
        try:
            ok = True
            bw.Surface([[[float(i), 1., float(j)] for j in range(2)] for i in range(npol)], ([(0., mult[0]), (1., mult[1])], [(0., 2), (1., 2)]), False, (deg, 1))
        except AssertionError:
            ok = False
        require(ok == exp, "surface with {} rows of poles of degree {} with knot multiplicities {} is {}", npol, deg, mult, "accepted" if ok else "refused")
    elif what == "dim":
        dim, cls = deg, s
        p = [1.] * dim
        kn = [(0., 2), (1., 2)]
        try:
            if cls == "Surface":
                bw.Surface([[p, p], [p, p]], (kn, kn), bool(rational), (1, 1))
            else:
                getattr(bw, cls)([p, p], kn, bool(rational), 1)
        except bw.ParamError:
            ok = False
        exp = dim == (2 if cls == "Curve2D" else 3) + rational
        require(ok == exp, "{} {} with poles of {} numbers {}", "rational" if rational else "plain", cls, dim, "accepted" if ok else "refused")
    else:
        kn = [F(0)] * (deg + 1) + [F(1)] * (deg + 1)
        ref = sr.Basis(deg, kn)
        poles = [[F(3 + 2 * i), F(5 - i), F(2 + i * i)] + ([F(1 + i)] if rational else []) for i in range(deg + 1)]
        poles = [mv(p) for p in poles]
        c = bw.curve_from_bs(bs.Curve(bs.SplineBasis(deg, flt(kn)), np.array(flt(poles)), bool(rational)))
        ends = [np.array(flt(p[:3])) for p in (poles[0], poles[-1])]
        d = [float(f) * np.array(s, dtype=float), float(f) * np.array(z, dtype=float)]
        vs = [bw.Vertex(list(e + x)) for e, x in zip(ends, d)]
        exp = not (d[0].any() or d[1].any())
        sp = [[[F(3 + 2 * i), F(5 - 3 * j), F(2 + i * j)] + ([F(1 + i)] if rational else []) for j in range(2)] for i in range(deg + 1)]
        sp = [[mv(p) for p in row] for row in sp]
        bsurf = bs.Surface((bs.SplineBasis(deg, flt(kn)), bs.SplineBasis(1, [0., 0., 1., 1.])), np.array(flt(sp)), bool(rational))
        surface = bw.surface_from_bs(bsurf)
        c2 = bw.curve_from_bs(bs.Curve(bs.SplineBasis(1, [0., 0., 1., 1.]), np.array([[0., 0.], [1., 1.]]), False))
        sends = [np.array(flt(p[:3])) for p in (sp[0][0], sp[-1][-1])]
        try:
            if what == "edge3":
                e = bw.Edge(vs)
                e.attach_to_3d_curve((0., 1.), c)
            elif what == "edge2":
                e = bw.Edge([bw.Vertex(list(p + x)) for p, x in zip(sends, d)])
                e.attach_to_2d_curve((0., 1.), c2, surface)
            elif what == "vertex3":
                exp = not d[0].any()
                vs[0].attach_to_3d_curve(0., c)
            elif what == "vertex2":
                exp = not d[1].any()
                bw.Vertex(list(sends[1] + d[1])).attach_to_2d_curve(1., c2, surface)
            else:
                exp = not d[1].any()
                bw.Vertex(list(sends[1] + d[1])).attach_to_surface(1., 1., surface)
        except Exception as ex:
            if type(ex) is not Exception:
                raise
            ok = False
        require(ok == exp, "{} displaced by {} {} was {}", what, s, z, "attached" if ok else "refused")
        if ok and what.startswith("edge"):
            # reversed parameters fit the other way round only
            try:
                ok = True
                e2 = bw.Edge([e.childs[0].shape, e.childs[1].shape])
                if what == "edge3":
                    e2.attach_to_3d_curve((1., 0.), c)
                else:
                    e2.attach_to_2d_curve((1., 0.), c2, surface)
            except Exception as ex:
                if type(ex) is not Exception:
                    raise
                ok = False
            require(not ok, "edge attached in opposite direction")
    out.outcomes.add(tuple(map(str, case)))


# ---------------------------------------------------------------- numbers that need all their digits
NUMBERS = [1 / 3, -0.1, 1234567.8125, -123456789.12345679, 299792.4580000001, 1e-8, -3.3333e-9, 1.5e-17, 6.02e23, 1e16, 0.30000000000000004,
           float(np.nextafter(1.0, 2.0)), 7, 12345678901]
SLOTS = (["c3", i, j] for i in (0, 1, 2) for j in (0, 1, 2)), (["c2", 1, j] for j in (0, 1)), (["s", 1, j] for j in (0, 1, 2)), \
    (["w3", i, 0] for i in (0, 1, 2)), (["ws", 1, 0], ["k3", 0, 0], ["k3", 1, 0], ["ku", 0, 0], ["kv", 1, 0], ["k2", 0, 0], ["tol", 0, 0], ["tol", 1, 0], ["tol", 2, 0])


def digits_cases(ctx):
    for slot in itertools.chain(*SLOTS):
        for i in range(len(NUMBERS)):
            for kind in ("float", "numpy"):
                yield [slot, i, kind]


def digits(case, out):
    """One number of the model has the given value, everything else is simple."""
    (what, i, j), k, kind = case
    x = NUMBERS[k]
    if what in ("w3", "ws", "k3", "k2", "ku", "kv", "tol"):
        x = abs(x)
    rat = int(what in ("w3", "ws"))
    p3 = [[0., 0., 0.], [1., 2., 1.], [2., 0., 0.]]
    sp = [[[float(a), float(b), 0.] for b in range(2)] for a in range(3)]
    if rat:
        p3, sp = [p + [1.] for p in p3], [[p + [1.] for p in row] for row in sp]
    p2 = [[0., 0.], [.5, .5], [1., 0.]]
    k3, ku, kv, k2 = [0., 1.], [0., 1.], [0., 1.], [0., 1.]
    if what in ("c3", "w3"):
        p3[i][j if what == "c3" else 3] = x
    elif what in ("s", "ws"):
        sp[1][1][j if what == "s" else 3] = x
    elif what == "c2":
        p2[i][j] = x
    elif what != "tol":
        kn = {"k3": k3, "ku": ku, "kv": kv, "k2": k2}[what]
        kn[:] = [x, 2 * x + 1] if i == 0 else [-1., x]
        for t, p in ((0, p2[0]), (-1, p2[2])):
            p[:] = [ku[t], kv[0]]
    conv = (lambda v: np.array(v, dtype=float)) if kind == "numpy" else (lambda v: v)
    num = np.float64 if kind == "numpy" else (lambda v: v)
    kn3, kn2, knu, knv = [[(num(a[0]), 3), (num(a[1]), 3)] for a in (k3, k2, ku, kv)]
    knv = [(t, 2) for t, _ in knv]
    curve3 = bh.Curve(bw.Curve3D(conv(p3), kn3, bool(rat), 2), 3, rat, 2, p3, kn3)
    sf = bh.Surf(bw.Surface(conv(sp), (knu, knv), bool(rat), (2, 1)), rat, (2, 1), sp, (knu, knv))
    curve2 = bh.Curve(bw.Curve2D(conv(p2), kn2, False, 2), 2, 0, 2, p2, kn2)
    e1 = bh.edge(bh.vertex(p3[0][:3]), bh.vertex(p3[2][:3]))
    bh.attach3(e1, (kn3[0][0], kn3[1][0]), curve3)
    e2 = bh.edge(bh.vertex([0., 0., 0.]), bh.vertex([2., 0., 0.]))
    bh.attach2(e2, (kn2[0][0], kn2[1][0]), curve2, sf)
    parts = [e1, e2]
    if what == "tol":
        tol = [x if q == i else None for q in range(3)]
        vs = [bh.vertex(p, tol[0]) for p in ([0., 0., 5.], [1., 0., 5.], [0., 1., 5.])]
        es = [bh.edge(vs[q], vs[(q + 1) % 3], tol[1]) for q in range(3)]
        parts.append(bh.face(es, tol=tol[2]))
    root = bh.compound(parts)
    bh.Compare(bh.write(root), root)
    out.outcomes.add(str(case))


SPACES = {"many": many, "digits": digits, "curve": curve, "surf": surf, "implicit": implicit, "approx": approx, "attach": attach}


def explore(ctx):
    ctx.each("many", many_cases(ctx), many, chunk=1)
    ctx.each("curve", curve_cases(ctx), curve)
    ctx.each("surf", surf_cases(ctx), surf, chunk=8)
    ctx.each("implicit", implicit_cases(ctx), implicit)
    ctx.each("approx", approx_cases(ctx), approx)
    ctx.each("attach", attach_cases(ctx), attach)
    ctx.bound("{} numbers needing all digits at each place of the records of curves and surfaces".format(len(NUMBERS)))
    ctx.each("digits", digits_cases(ctx), digits)


def replay(case):
    SPACES[case["space"]](case["case"], core.Out())
