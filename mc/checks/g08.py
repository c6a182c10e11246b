"""G08: mesh size fields: every expression up to a depth evaluated by gmsh against its definition."""
import itertools
import json
import math

import gmsh
import numpy as np
from bgem.gmsh import gmsh as bg
from bgem.gmsh import field

from .. import core
from .. import occ_harness as oh
from ..core import require

LEVEL = "model_checking"
ASSUMPTIONS = ["fields are evaluated where gmsh asks for the size when it meshes lines, faces and boxes; the mesher is trusted"]
INF = 1e22

LINES = [((-2, 0.1, 0.2), (2, 0.1, 0.2)), ((0.3, -2, -0.4), (0.3, 2, 0.6)), ((-1.5, -1.25, -2), (1, 1.5, 2))]
POINTS = [(0, 0, 0), (1, 1, 0.5), (-1.5, 0.25, -1)]
CURVES = [((-1, 0.5, 0), (1, 0.5, 0)), ((0, -1, -1), (0, -1, 1.5))]


class World:
    def __init__(self):
        self.f = oh.factory()
        m = self.f.model
        self.lines = [m.addLine(m.addPoint(*a), m.addPoint(*b)) for a, b in LINES]
        self.points = [m.addPoint(*p) for p in POINTS]
        self.curves = [m.addLine(m.addPoint(*a), m.addPoint(*b)) for a, b in CURVES]
        m.synchronize()
        for n in ("MeshSizeFromPoints", "MeshSizeFromCurvature", "MeshSizeExtendFromBoundary"):
            gmsh.option.setNumber("Mesh." + n, 0)

    def evaluate(self, fid, dim=1):
        field.set_mesh_step_field(fid)
        rec = []

        def size(d, t, x, y, z, lc):
            rec.append((int(d), int(t), float(x), float(y), float(z), float(lc)))
            return 0.25 if dim == 1 else 0.7
        gmsh.model.mesh.setSizeCallback(size)
        gmsh.model.mesh.clear()
        gmsh.model.mesh.generate(dim)
        gmsh.model.mesh.removeSizeCallback()
        return rec


# an expression is a list [kind, parameters...]; an interval (lo, hi) is its value at a point
def seg_dist(p, a, b):
    p, a, b = np.array(p), np.array(a), np.array(b)
    t = min(1.0, max(0.0, (p - a) @ (b - a) / ((b - a) @ (b - a))))
    return float(np.linalg.norm(p - a - t * (b - a)))


def value(e, p):
    """Interval of admissible values of the expression at the point, None when it is not determined."""
    k = e[0]
    if k == "box":
        lo, hi, vin, vout = e[1:]
        m = min(min(x - a, b - x) for x, a, b in zip(p, lo, hi))
        if abs(m) < 1e-7:
            return (min(vin, vout), max(vin, vout)) if vout is not None else (vin, INF)
        return (vin, vin) if m > 0 else ((vout, vout) if vout is not None else (INF, INF))
    if k == "constant":
        return value(["box", [-e[2]] * 3, [e[2]] * 3, e[1], None], p)
    if k == "nodes":
        d = min(math.dist(p, POINTS[i]) for i in e[1])
        return d, d
    if k == "edges":
        n = e[2] or 8
        d = [seg_dist(p, *CURVES[i]) for i in e[1]]
        up = min(x + math.dist(*CURVES[i]) / (n - 1) for x, i in zip(d, e[1]))
        return min(d), up
    if k == "threshold":
        (a, va), up, sig = e[2:]
        v = value(e[1], p)
        if up is None:
            return (va, va) if v[1] <= a else (0, INF)
        b, vb = up

        def th(x):
            if x <= a:
                return va
            if x >= b:
                return vb
            r = (x - a) / (b - a)
            if sig:
                s = 1 / (1 + math.exp(-12 * (r - 0.5)))
                return va * (1 - s) + vb * s
            return va + r * (vb - va)
        vals = [th(x) for x in v]
        if sig:
            # the steepness of the sigmoid is not a part of the interface
            tol = 0.03 * abs(vb - va)
            return min(vals) - tol, max(vals) + tol
        return min(vals), max(vals)
    if k in ("min", "max"):
        f = min if k == "min" else max
        v = [value(x, p) for x in e[1]]
        return f(x[0] for x in v), f(x[1] for x in v)
    raise ValueError(k)


def build(w, e):
    k = e[0]
    if k == "box":
        lo, hi, vin, vout = e[1:]
        return field.box(lo, hi, vin) if vout is None else field.box(lo, hi, vin, vout)
    if k == "constant":
        return field.constant(*e[1:])
    if k == "nodes":
        return field.distance_nodes([w.points[i] for i in e[1]])
    if k == "edges":
        tags = [w.curves[i] for i in e[1]]
        return field.distance_edges(tags) if e[2] is None else field.distance_edges(tags, nodes_per_edge=e[2])
    if k == "threshold":
        fid = build(w, e[1])
        args = [tuple(e[2])] + ([tuple(e[3])] if e[3] else [])
        return field.threshold(fid, *args, sigmoid=True) if e[4] else field.threshold(fid, *args)
    return getattr(field, k)([build(w, x) for x in e[1]])


LEAVES = [["box", [-1, -1, -1], [1, 0.15, 1], 0.3, 0.7], ["box", [-0.5, -1.5, -0.6], [0.4, 2, 1.3], 0.9, 0.2], ["box", [-1.3, -2, -1], [1, 0.7, 3], 0.45, None],
          ["constant", 0.6, 9], ["constant", 0.35, 0.8], ["nodes", [0]], ["nodes", [1, 2]], ["nodes", [0, 1, 2]],
          ["edges", [0], None], ["edges", [1], 40], ["edges", [0, 1], 100], ["edges", [1, 0], 3]]
BOUNDS = [[[0.5, 0.1], [1.5, 0.8]], [[0.2, 0.9], [1.0, 0.3]], [[0.0, 0.2], [0.6, 0.25]], [[0.8, 0.4], None]]


def thresholds(leaves):
    for lf in leaves:
        for lo, up in BOUNDS:
            for sig in (False, True):
                if up is None and sig:
                    continue
                yield ["threshold", lf, lo, up, sig]


def cases(ctx):
    yield from LEAVES
    one = list(thresholds([x for x in LEAVES]))
    yield from one
    small = LEAVES + [t for k, t in enumerate(one) if t[3] is not None and k % ctx.pick(6, 2) == 0]
    for op in ("min", "max"):
        for x in LEAVES:
            yield [op, [x]]
        for a, b in itertools.product(small, repeat=2):
            if a is not b:
                yield [op, [a, b]]
        for a, b, c in itertools.permutations(LEAVES, 3):
            yield [op, [a, b, c]]
    two = [["min", [LEAVES[0], LEAVES[5]]], ["max", [LEAVES[2], LEAVES[8]]], ["min", [LEAVES[1], LEAVES[9], LEAVES[6]]], ["threshold", LEAVES[7], [0.4, 0.1], [2.0, 1.2], False]]
    for t in thresholds(two):
        yield t
        for op in ("min", "max"):
            for x in LEAVES:
                yield [op, [x, t]]
                yield [op, [[op, [t, x]], LEAVES[3]]]
                yield [op, [["max" if op == "min" else "min", [t, x]], LEAVES[0]]]


def one(case, out):
    w = World()
    fid = build(w, case)
    rec = w.evaluate(fid)
    on = set()
    n = 0
    for d, t, x, y, z, lc in rec:
        if d != 1:
            continue
        v = value(case, (x, y, z))
        n += 1
        on.add(t)
        eps = 1e-6
        lo, hi = min(v[0], INF), min(v[1], INF)
        require(lo - eps * (1 + abs(lo)) <= lc <= hi + eps * (1 + abs(hi)), "value at {} is {} instead of {}", (round(x, 4), round(y, 4), round(z, 4)), lc, (lo, hi))
    require(set(w.lines) <= on and n > 100, "field was not evaluated")
    out.extra["points"] += n
    out.outcomes.add(json.dumps(case)[:300])


# ------------------------------------------------------------------ restriction
def restrict_cases(ctx):
    names = ["boxA", "boxB", "rect", "line", "point"]
    for n in range(1, 6):
        for sel in itertools.combinations(names, n):
            for bnd in (False, True):
                for how in ("sets", "group") if n > 1 else ("sets",):
                    for kind in ("constant", "nodes"):
                        yield [list(sel), bnd, how, kind]
    for sel in (["boxA.bnd"], ["rect.bnd", "line"], ["boxB.bnd", "boxA"]):
        yield [sel, False, "sets", "constant"]
    yield [[], False, "sets", "constant"]


def restrict(case, out):
    sel, bnd, how, kind = case
    f = oh.factory()
    objs = {"boxA": f.box([2, 2, 2], [-2, 0, 0]), "boxB": f.box([2, 1, 2], [2, 0, 0]), "rect": f.rectangle([2, 2], [0, 5, 0]),
            "line": f.make_simplex(1).translate([0, -4, 0]), "point": f.make_simplex(0).translate([0, -6, 0])}
    f.synchronize()
    for n in ("MeshSizeFromPoints", "MeshSizeFromCurvature", "MeshSizeExtendFromBoundary"):
        gmsh.option.setNumber("Mesh." + n, 0)
    w = World.__new__(World)
    base = field.constant(0.5, 50) if kind == "constant" else field.distance_nodes([int(objs["point"].tags[0])])
    centre = gmsh.model.getValue(0, objs["point"].tags[0], [])
    sets = [objs[s.split(".")[0]].get_boundary() if s.endswith(".bnd") else objs[s] for s in sel]
    ents = {tuple(map(int, dt)) for s in sets for dt in s.dim_tags}
    if bnd:
        ents |= {(d, int(t)) for e in list(ents) for d, t in gmsh.model.getBoundary([e], oriented=False) if e[0] > 0}
    if how == "group":
        sets = [f.group(*sets)]
    before = {n: list(o.dim_tags) for n, o in objs.items()}
    fid = field.restrict(base, *sets, add_boundary=bnd)
    require({n: list(o.dim_tags) for n, o in objs.items()} == before, "the object sets were changed")
    if not sel:
        require(fid is None, "restriction to nothing gives {}", fid)
        return
    rec = World.evaluate(w, fid, 3)
    seen = set()
    for d, t, x, y, z, lc in rec:
        seen.add(d)
        if (d, t) in ents:
            v = 0.5 if kind == "constant" else math.dist((x, y, z), centre)
            require(abs(lc - v) < 1e-6, "restricted field on {} is {} instead of {}", (d, t), lc, v)
        else:
            require(lc >= 1e20, "restricted field is {} on {} outside of {}", lc, (d, t), sorted(ents))
    require({1, 2, 3} <= seen, "field was not evaluated")
    out.outcomes.add(str(case))


# ------------------------------------------------------------------ background field and meshes
def mesh_cases(ctx):
    for h in (0.15, 0.25, 0.5):
        for what in ("constant", "box", "threshold", "restrict", "second"):
            yield [what, h]


def meshes(case, out):
    """The mesh made by make_mesh really follows the field."""
    what, h = case
    f = oh.factory()
    rec = f.rectangle([4, 2]).set_region("r")
    f.synchronize()
    gmsh.option.setNumber("Mesh.MeshSizeFromPoints", 0)
    gmsh.option.setNumber("Mesh.MeshSizeExtendFromBoundary", 0)
    hs = lambda x: h
    if what == "constant":
        fid = field.constant(h, 10)
    elif what == "box":
        fid = field.box((-3, -3, -1), (0, 3, 1), h, 3 * h)
        hs = lambda x: h if x < 0 else 3 * h
    elif what == "threshold":
        left = f.make_polygon([[-2, -1, 5], [-2, 1, 5], [-3, 0, 5]])
        pts = [dt for dt in gmsh.model.getEntities(0) if gmsh.model.getValue(0, dt[1], [])[0] < -1.9]
        crv = [t for d, t in gmsh.model.getEntities(1) if gmsh.model.getBoundingBox(1, t)[3] < -1.9 and gmsh.model.getBoundingBox(1, t)[5] < 1]
        fid = field.threshold(field.distance_edges(crv, 100), (0.5, h), (3.5, 4 * h))
        hs = lambda x: h * (1 + 3 * min(1, max(0, (x + 1.5) / 3)))
    elif what == "restrict":
        fid = field.min([field.restrict(field.constant(h, 10), rec, add_boundary=True), field.constant(1.0, 10)])
    else:
        field.set_mesh_step_field(field.constant(0.05, 10))
        fid = field.constant(h, 10)
    field.set_mesh_step_field(fid)
    f.make_mesh([rec], dim=2)
    ids, xyz, _ = gmsh.model.mesh.getNodes()
    pts = {int(i): np.array(xyz[3 * k:3 * k + 3]) for k, i in enumerate(ids)}
    tri = np.array(gmsh.model.mesh.getElements(2)[2][0], dtype=int).reshape(-1, 3)
    ratio = []
    for t in tri:
        for a, b in itertools.combinations(t, 2):
            m = (pts[a][0] + pts[b][0]) / 2
            if what == "box" and abs(m) < 1.0:
                continue
            ratio.append(np.linalg.norm(pts[a] - pts[b]) / hs(m))
    mean = float(np.mean(ratio))
    require(0.7 < mean < 1.35, "mean edge is {} of the prescribed size", mean)
    require(0.2 < min(ratio) and max(ratio) < 2.5, "edges are {} to {} of the prescribed size", min(ratio), max(ratio))
    out.outcomes.add(str(case))


SPACES = {"expression": one, "restrict": restrict, "mesh": meshes}


def explore(ctx):
    ctx.each("expression", cases(ctx), one)
    ctx.each("restrict", restrict_cases(ctx), restrict, chunk=8)
    ctx.each("mesh", mesh_cases(ctx), meshes, chunk=2)


def replay(case):
    SPACES[case["space"]](case["case"], core.Out())
