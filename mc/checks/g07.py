"""G07: shape constructors, physical groups and meshes made from object sets with regions."""
import itertools
import math
import os

import gmsh
import numpy as np
from bgem.gmsh import gmsh as bg
from bgem.gmsh import gmsh_io

from .. import core
from .. import mesh_ref as mr
from .. import occ_harness as oh
from ..core import require
from ..occ_harness import Slot
from . import g06

LEVEL = "model_checking"
ASSUMPTIONS = ["meshed shapes are unions of unit lattice cells; the mesher and kernel of gmsh are trusted"]
NOD = {15: 0, 1: 1, 2: 2, 4: 3}


# ------------------------------------------------------------------ meshes
def measure(p):
    p = np.array(p)
    d = len(p) - 1
    if d == 0:
        return 1.0
    e = p[1:] - p[0]
    return math.sqrt(max(np.linalg.det(e @ e.T), 0)) / math.factorial(d)


def in_cell(x, c):
    return all(2 * v + 1e-6 >= a - 1 and 2 * v - 1e-6 <= a + 1 if a % 2 else abs(2 * v - a) < 1e-6 for v, a in zip(x, c))


def check_cover(elements, cells, what):
    """The elements lie in the cells and have their total measure; cells: lattice cell -> multiplicity."""
    total = 0
    for p in elements:
        x = np.mean(np.array(p), axis=0)
        require(any(in_cell(x, c) for c in cells), "{}: element {} is outside of the region", what, [list(map(float, q)) for q in p])
        total += measure(p)
    n = sum(cells.values())
    require(abs(total - n) < 1e-6, "{}: the elements have the measure {} instead of {}", what, total, n)


def entity_elements(dim, tag, nodes):
    types, tags, conn = gmsh.model.mesh.getElements(dim, tag)
    res = []
    for t, ids, c in zip(types, tags, conn):
        require(int(t) in NOD and NOD[int(t)] == dim, "element type {} on entity of dimension {}", t, dim)
        n = len(c) // len(ids)
        res += [tuple(int(x) for x in c[n * i:n * i + n]) for i in range(len(ids))]
    return res


def check_mesh(slots, dim, eliminate, what):
    """slots: list of (regions as list, Slot) used in make_mesh."""
    ids, xyz, _ = gmsh.model.mesh.getNodes()
    nodes = {int(i): tuple(xyz[3 * k:3 * k + 3]) for k, i in enumerate(ids)}
    keys = {tuple(np.round(p, 7)) for p in nodes.values()}
    require(len(keys) == len(nodes), "{}: {} nodes at {} places", what, len(nodes), len(keys))
    # regions
    want = {}
    for s in slots:
        for dt, reg, (cells, name) in zip(s.tags, s.obj.regions, s.items):
            w = want.setdefault(id(reg), (reg, name, {}, set()))
            if dt not in w[3]:
                w[3].add(dt)
                for c in cells:
                    w[2][c] = w[2].get(c, 0) + 1
    by_name = {}
    for reg, name, cells, tags in want.values():
        by_name.setdefault(name, []).append(reg)
    groups = {}
    for d, g in gmsh.model.getPhysicalGroups():
        groups.setdefault(gmsh.model.getPhysicalName(d, g), []).append((d, g))
    require(all(len(v) == 1 for v in groups.values()), "{}: physical names {}", what, groups)
    names = [reg.name for reg, _, _, _ in want.values()]
    require(sorted(groups) == sorted(names), "{}: physical groups {} of the regions {}", what, sorted(groups), sorted(names))
    for name, regs in by_name.items():
        if len(regs) == 1:
            require(regs[0].name == name, "{}: unique region {} renamed to {}", what, name, regs[0].name)
        else:
            require(all(r.name.startswith(name + "_") for r in regs), "{}: regions {} are named {}", what, name, [r.name for r in regs])
    used = set()
    for reg, name, cells, tags in want.values():
        d, g = groups[reg.name][0]
        ents = sorted(int(t) for t in gmsh.model.getEntitiesForPhysicalGroup(d, g))
        require({(d, t) for t in ents} == tags and len(ents) == len(tags), "{}: group {} has entities {} instead of {}", what, reg.name, ents, sorted(tags))
        used |= tags
        if d > dim:
            continue
        els = [[nodes[n] for n in e] for t in ents for e in entity_elements(d, t, nodes)]
        check_cover(els, cells, "{}: region {}".format(what, reg.name))
    # nothing else
    ents = {tuple(map(int, e)) for e in gmsh.model.getEntities()}
    if eliminate:
        keep = g06.State.closure(used)
        for d, t in list(keep):
            if d > 1:
                keep |= g06.State.closure([tuple(map(int, e)) for e in gmsh.model.mesh.getEmbedded(d, t)])
        require(ents == {tuple(map(int, e)) for e in keep}, "{}: entities {} left besides the meshed objects and their boundary", what,
                sorted(ents - {tuple(map(int, e)) for e in keep}))
    top = {}
    for d, t in ents:
        if d > dim:
            require(not entity_elements(d, t, nodes), "{}: mesh of dimension {} above {}", what, d, dim)
    for d, t in used:
        if d == 3 and dim == 3:
            for e in entity_elements(d, t, nodes):
                for f in itertools.combinations(sorted(e), 3):
                    top[f] = top.get(f, 0) + 1
    require(all(n <= 2 for n in top.values()), "{}: face of more than two tetrahedra", what)
    return nodes


def check_file(slots, path, what):
    """The written file read by GmshIO has the regions and the elements of the regions only."""
    io = gmsh_io.GmshIO(path)
    regs = {}
    for s in slots:
        for dt, reg, (cells, name) in zip(s.tags, s.obj.regions, s.items):
            r = regs.setdefault(reg.name, (dt[0], {}, set()))
            if dt not in r[2]:
                r[2].add(dt)
                for c in cells:
                    r[1][c] = r[1].get(c, 0) + 1
    require({n: d for n, (i, d) in io.physical.items()} == {n: r[0] for n, r in regs.items()}, "{}: regions in the file {}", what, io.physical)
    ids = {i: n for n, (i, d) in io.physical.items()}
    els = {}
    for t, tags, ns in io.elements.values():
        require(tags[0] in ids, "{}: element with the region number {}", what, tags[0])
        els.setdefault(ids[tags[0]], []).append([io.nodes[n] for n in ns])
    for n, (d, cells, tags) in regs.items():
        check_cover(els.get(n, []), cells, "{}: file, region {}".format(what, n))


HISTS = {
    "3d": [[], [["ffrag3", 0, 1, 2]], [["ffrag", 0, 1]], [["cut", 0, 1]], [["group", 0, 1]], [["fragment", 1, 0]], [["sbc", 1, 2]], [["copy", 0], ["move", 3, "tz"]],
           [["ffrag", 0, 1], ["cut", 0, 2]]],
    "touch": [[], [["ffrag3", 2, 0, 1]], [["ffrag", 0, 1], ["select", 2, 1]], [["group", 0, 2], ["modify", 3]], [["intersect", 0, 1]]],
    "2d": [[], [["ffrag3", 0, 2, 1]], [["cut3", 0, 1, 2]], [["sbc", 0, 1]], [["group", 0, 1], ["group", 2, 3]], [["move", 1, "rx"], ["ffrag", 0, 1]]],
    "mixed": [[], [["ffrag3", 0, 1, 2]], [["cut", 0, 1]], [["ffrag", 2, 1], ["region", 1]], [["intersect", 0, 1], ["ffrag", 1, 2]]],
    "line": [[], [["cut", 0, 1]], [["intersect", 0, 1]], [["ffrag", 1, 2]]],
}


def mesh_cases(ctx):
    for root, hists in HISTS.items():
        for h in hists:
            for n in (1, 2, 3, 4):
                for sel in itertools.permutations(range(4), n) if not ctx.quick or n < 2 else itertools.combinations(range(4), n):
                    for extra in ("", "bnd", "pre"):
                        for eliminate in (True, False):
                            for d in (3, 2) if n == 1 else (3,):
                                yield [root, h, list(sel), extra, eliminate, d]


def make(case, out):
    root, hist, sel, extra, eliminate, dim = case
    st = g06.State(root)
    if extra == "pre":          # the lines of all objects are meshed before the history
        oh.sync(st.f)
        st.f.make_mesh([s.obj for s in st.slots if s.items], dim=1, eliminate=False)
    for op in hist:
        st.apply(op)
    if max(sel) >= len(st.slots):
        return
    slots = [st.slots[i] for i in sel]
    slots = [s for s in slots if s.items]
    if not slots:
        return
    oh.sync(st.f)
    if extra == "bnd":
        more = []
        for s in slots:
            if s.conforming and len(s.dims()) == 1 and s.dims()[0] > 1:
                names = []
                for c, r in s.items:
                    if r not in names:
                        names.append(r)
                for p, r in zip(s.obj.get_boundary_per_region(), names):
                    more.append(Slot(p, [(oh.decode(*map(int, dt)), ".{}".format(r)) for dt in p.dim_tags]))
        if not more:
            return
        slots = slots + more
    for s in slots:
        s.obj.set_mesh_step(0.6)
    if not sane(slots):
        return
    path = mr.scratch("msh")
    st.f.make_mesh([s.obj for s in slots], dim=dim, eliminate=eliminate)
    check_mesh(slots, dim, eliminate, "mesh")
    fname = path + ".msh2"
    st.f.write_mesh(fname)
    tags = [t for s in slots for t in set(s.tags)]
    if dim == 3 and len(set(tags)) == len(tags):
        check_file(slots, fname, "mesh")
    os.remove(fname)
    out.outcomes.add(str([root, hist, sel, extra, dim]))


def sane(slots):
    """Overlapping shapes of different entities give mesh that gmsh can not separate; only disjoint or identical ones are meshed."""
    ents = {}
    for s in slots:
        for dt, (c, r) in zip(s.tags, s.items):
            ents[dt] = c
    for (a, c), (b, e) in itertools.combinations(ents.items(), 2):
        if a[0] == b[0] and c & e:
            return False
    return True


# ------------------------------------------------------------------ region names
def name_cases(ctx):
    names = ["a", "b", "a_0", "a_1", "a_0_0"]
    for n in range(1, ctx.pick(5, 6)):
        for pick in itertools.product(names, repeat=n):
            if n == 5 and len(set(pick)) == 5:
                continue
            for how in ("get", "str") if n < 4 else ("get",):
                yield [list(pick), how]


def unique_names(case, out):
    pick, how = case
    f = oh.factory()
    objs, regs = [], []
    for k, name in enumerate(pick):
        o = f.make_simplex(0).translate([k, 0, 0])
        if how == "get":
            o.set_region(bg.Region.get(name))
        else:
            o.set_region(name)
        objs.append(o)
        regs.append(o.regions[0])
    if how == "str":
        for (r, n), (s, m) in itertools.combinations(list(zip(regs, pick)), 2):
            require((r is s) == (n == m), "regions of the names {} {}: same {}", n, m, r is s)
    require(len({r.id for r in regs}) == len({id(r) for r in regs}), "regions {} with the same number", regs)
    require(not {r.id for r in regs} & {r.id for r in bg.Region.default_region}, "number of a default region in {}", regs)
    f.make_mesh(objs, dim=0)
    groups = gmsh.model.getPhysicalGroups()
    found = {}
    for d, g in groups:
        name = gmsh.model.getPhysicalName(d, g)
        require(name not in found, "regions {}: physical name {} is repeated", pick, name)
        found[name] = [int(t) for t in gmsh.model.getEntitiesForPhysicalGroup(d, g)]
    by = {}
    for o, r in zip(objs, regs):
        by.setdefault(id(r), [r.name, []])[1].append(o.tags[0])
    require(sorted(found.items()) == sorted((n, sorted(t)) for n, t in by.values()), "regions {}: groups {} instead of {}", pick, found, list(by.values()))
    for n, r in zip(pick, regs):
        if len({id(x) for x, m in zip(regs, pick) if m == n}) == 1:
            require(r.name == n, "region {} renamed to {}", n, r.name)
        else:
            require(r.name.startswith(n + "_"), "region {} renamed to {}", n, r.name)
    out.outcomes.add(str(sorted(found)))


# ------------------------------------------------------------------ constructors
def shape_cases(ctx):
    for d in range(4):
        yield ["simplex", d]
    for sides in ([1, 1], [2, 1], (3, 0.5), [0.25, 4.0]):
        for c in (None, [1, 2, 3], (0.5, -1, 0)):
            for again in (0, 1, 2):
                yield ["rectangle", sides, c, again]
    yield ["rectangle", None, None, 1]
    yield ["rectangle", None, [1, 0, 0], 2]
    for sides in ([1, 1, 1], (2, 1, 3), [0.5, 0.25, 4]):
        for c in (None, [1, 2, 3], (0.5, -1, 0)):
            yield ["box", sides, c]
    for r in (1, 0.5, 2):
        for axis in (None, [0, 0, 2], [1, 0, 0], (0, 3, 4)):
            for c in (None, [1, 2, 3]):
                yield ["cylinder", r, axis, c]
    for s in ([1, 1, 1], [2, 3, 1], (0.5, 1, 7)):
        for arr in (0, 1):
            yield ["make_rectangle", s, arr]
    grid = list(itertools.product(range(3), repeat=2))
    for n in (3, 4):
        for pts in itertools.permutations(grid, n):
            if pts[0] != min(pts):
                continue
            if simple(pts):
                for step in (None, 1, 0.7, "array"):
                    for plane in (0, 1) if step is None else (0,):
                        yield ["polygon", [list(p) for p in pts], step, plane]


def area2(p):
    return sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(p, p[1:] + p[:1]))


def simple(pts):
    pts = list(pts)
    n = len(pts)

    def orient(a, b, c):
        return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    for i in range(n):
        if orient(pts[i - 1], pts[i], pts[(i + 1) % n]) == 0:
            return False
    if n == 4:
        for i in (0, 1):
            a, b, c, d = pts[i], pts[i + 1], pts[i + 2], pts[(i + 3) % 4]
            if orient(a, b, c) * orient(a, b, d) <= 0 and orient(c, d, a) * orient(c, d, b) <= 0:
                return False
    return area2(pts) != 0


def close(a, b):
    return np.max(np.abs(np.array(a, dtype=float) - np.array(b, dtype=float))) < 1e-6


def bbox(f, obj):
    f.synchronize()
    b = np.array(gmsh.model.getBoundingBox(*obj.dim_tags[0]))
    return b[:3], b[3:]


def shapes(case, out):
    f = oh.factory()
    kind = case[0]
    if kind == "simplex":
        d = case[1]
        o = f.make_simplex(d)
        require([tuple(x)[0] for x in o.dim_tags] == [d] and o.regions[0].name == "default_{}d".format(d), "simplex {} {}", o.dim_tags, o.regions)
        f.synchronize()
        require(len(gmsh.model.getEntities(0)) == d + 1, "{} vertices of the simplex", len(gmsh.model.getEntities(0)))
        pts = sorted(tuple(int(round(x)) for x in gmsh.model.getValue(0, t, [])) for _, t in gmsh.model.getEntities(0))
        require(pts == sorted([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)][:d + 1]), "vertices {}", pts)
        for k in range(1, d + 1):
            n = len(gmsh.model.getEntities(k))
            require(n == math.comb(d + 1, k + 1), "{} entities of dimension {}", n, k)
        if d:
            require(close(o.mass(), 1 / math.factorial(d)), "mass {}", o.mass())
            c = [1 / (d + 1)] * d + [0] * (3 - d)
            require(close(o.center_of_mass()[0], c), "centre {}", o.center_of_mass()[0])
            b = o.get_boundary()
            require(b.size == d + 1, "{} boundary entities", b.size)
    elif kind in ("rectangle", "box"):
        n = 2 if kind == "rectangle" else 3
        sides, c = case[1:3]
        again = case[3] if kind == "rectangle" else 0
        kw = {}
        if c is not None:
            kw["center"] = c
        arg = None if sides is None else (list(sides) if not again else tuple(sides)) if again < 2 else np.array(sides)
        for k in range(2):
            o = getattr(f, kind)(**kw) if arg is None else getattr(f, kind)(arg, **kw)
            s = list(sides or [1, 1]) + [0] * (3 - n)
            lo, hi = bbox(f, o)
            cc = np.array(c if c is not None else [0, 0, 0], dtype=float)
            require(close(lo, cc - np.array(s) / 2) and close(hi, cc + np.array(s) / 2), "{} {}: box {} {}", kind, k, lo, hi)
            require(close(o.mass(), np.prod(s[:n])) and o.dim_tags[0][0] == n, "{} {}: mass {}", kind, k, o.mass())
            require(o.regions[0].name == "default_{}d".format(n), "region {}", o.regions[0])
        if arg is not None:
            require(list(arg) == list(sides), "argument changed to {}", arg)
        if c is not None:
            require(list(kw["center"]) == list(case[2]), "centre changed")
    elif kind == "cylinder":
        r, axis, c = case[1:]
        kw = {}
        if axis is not None:
            kw["axis"] = axis
        if c is not None:
            kw["center"] = c
        o = f.cylinder(r, **kw)
        a, c = np.array(axis if axis is not None else [0, 0, 1], dtype=float), np.array(c if c is not None else [0, 0, 0], dtype=float)
        require(close(o.mass(), math.pi * r * r * np.linalg.norm(a)), "mass {}", o.mass())
        require(close(o.center_of_mass()[0], c + a / 2), "centre {}", o.center_of_mass())
        b = o.get_boundary()
        require(sorted(round(f.model.getMass(*dt), 6) for dt in b.dim_tags) ==
                sorted(round(x, 6) for x in (math.pi * r * r, math.pi * r * r, 2 * math.pi * r * np.linalg.norm(a))), "boundary areas")
    elif kind == "make_rectangle":
        s, arr = case[1:]
        t = f.make_rectangle(np.array(s) if arr else s)
        o = f.object(2, t)
        lo, hi = bbox(f, o)
        require(close(lo, [-s[0], -s[1], 0]) and close(hi, [s[0], s[1], 0]) and close(o.mass(), 4 * s[0] * s[1]), "rectangle {} {} of area {}", lo, hi, o.mass())
    else:
        pts, step, plane = case[1:]
        p3 = [[x, y, 0] for x, y in pts] if plane == 0 else [[x, x + y, y - 1] for x, y in pts]
        kw = {} if step is None else {"mesh_step": np.linspace(0.3, 0.9, len(pts)) if step == "array" else step}
        o = f.make_polygon(np.array(p3, dtype=float), **kw)
        a2 = abs(area2(pts)) / 2
        f.synchronize()
        require(o.dim_tags[0] in gmsh.model.getEntities(2), "the polygon is not in the model")
        require(close(o.mass(), a2 if plane == 0 else a2 * math.sqrt(3)), "area {} instead of {}", o.mass(), a2)
        corners = sorted(tuple(np.round(gmsh.model.getValue(0, t, []), 6)) for _, t in gmsh.model.getEntities(0))
        require(corners == sorted(tuple(map(float, p)) for p in p3), "corners {}", corners)
        if step is not None:
            f.make_mesh([o.set_region("poly")], dim=1)
            for _, t in gmsh.model.getEntities(1):
                check_step(t, {tuple(map(float, p)): h for p, h in zip(p3, np.full(len(pts), step) if step != "array" else kw["mesh_step"])})
    out.outcomes.add(str(case))


def check_step(curve, steps):
    """The elements of a straight curve have about the sizes prescribed at its ends."""
    ids, xyz, _ = gmsh.model.mesh.getNodes(1, curve, includeBoundary=True)
    p = sorted(tuple(xyz[3 * i:3 * i + 3]) for i in range(len(ids)))
    for a, b in ((p[0], p[1]), (p[-1], p[-2])):
        h = steps[tuple(np.round(a, 6) + 0.0)]
        length = math.dist(p[0], p[-1])
        e = math.dist(a, b)
        if length > 1.5 * max(steps.values()):
            require(0.4 * h < e < 1.8 * h, "element of length {} at the end with the step {}", e, h)
        require(e < 1.8 * h, "element of length {} at the end with the step {}", e, h)


# ------------------------------------------------------------------ fractures
AXES = {"x": ([1, 0, 0], 1), "y": ([0, 1, 0], 1), "z": ([0, 0, 1], 1), "-": ([0, 0, 1], 0), "-x": ([1, 0, 0], 3)}


class Fr:
    def __init__(self, rx, ry, ax, centre, region):
        self.rx, self.ry, self.centre, self.region = rx, ry, list(centre), region
        self.rotation_axis, q = AXES[ax]
        self.rotation_angle = q * math.pi / 2


def fracture_cases(ctx):
    one = [(rx, ry, ax, c) for rx, ry in ((2, 2), (2, 4), (4, 2)) for ax in AXES for c in ((0, 0, 0), (0, 1, 0), (-1, 0, 1))]
    one = [o for o in one if frac_cells(o) is not None]
    for o in one:
        yield [list(map(list_or, o))]
    for a, b in itertools.combinations(one, 2):
        yield [list(map(list_or, a)), list(map(list_or, b))]
    step = ctx.pick(37, 5)
    for k, c in enumerate(itertools.combinations(one, 3)):
        if k % step == 0:
            yield [list(map(list_or, x)) for x in c]


def list_or(x):
    return list(x) if isinstance(x, tuple) else x


def frac_cells(o):
    rx, ry, ax, c = o
    cells = oh.box_cells([-rx // 2, -ry // 2, 0], [rx // 2, ry // 2, 0])
    vec, q = AXES[ax]
    k = [i for i in range(3) if vec[i]][0]
    i, j = (k + 1) % 3, (k + 2) % 3

    def rot(p):
        r = list(p)
        for _ in range(q):
            r[i], r[j] = -r[j], r[i]
        return [a + b for a, b in zip(r, c)]
    return oh.transform(cells, rot)


def fractures(case, out):
    f = oh.factory()
    base = f.rectangle([1, 1])
    frs = [Fr(*(list(o) + [bg.Region.get("fr{}".format(k % 2), dim=2)])) for k, o in enumerate(case)]
    res = f.make_fractures(frs, base)
    oh.sync(f)
    require(len(res) == len(frs), "{} fractures of {}", len(res), len(frs))
    require(base.dim_tags is not None and close(base.mass(), 1), "the base shape was changed")
    cells = [frac_cells(o) for o in case]
    slots = []
    cache = {}
    for k, (r, c) in enumerate(zip(res, cells)):
        items = oh.pieces(r, [(c, "fr{}".format(k % 2))], "fracture {}".format(k), cache, [e for e in cells])
        require(all(x is frs[k].region for x in r.regions), "fracture {} has another region", k)
        slots.append(Slot(r, items))
    by = {}
    for s in slots:
        for dt, (c, r) in zip(s.tags, s.items):
            by.setdefault(c, set()).add(dt)
    require(all(len(t) == 1 for t in by.values()), "coincident fragments {}", by)
    if len(case) < 3:
        for s in slots:
            s.obj.set_mesh_step(0.7)
        f.make_mesh([s.obj for s in slots], dim=2)
        nodes = check_mesh(slots, 2, True, "fractures")
        # conforming at crossings: every curve of the intersection is meshed once and shared
        tris = [e for d, t in gmsh.model.getEntities(2) for e in entity_elements(2, t, nodes)]
        pts = {n: np.array(p) for n, p in nodes.items()}
        used = {n for e in tris for n in e}
        edges = {tuple(sorted(x)) for e in tris for x in itertools.combinations(e, 2)}
        for a, b in edges:
            d = pts[b] - pts[a]
            ll = d @ d
            for n in used - {a, b}:
                t = (pts[n] - pts[a]) @ d / ll
                if 1e-9 < t < 1 - 1e-9 and np.max(np.abs(pts[a] + t * d - pts[n])) < 1e-7:
                    require(False, "hanging node {} on the edge {} {}", pts[n], pts[a], pts[b])
    out.outcomes.add(str(case))


# ------------------------------------------------------------------ files, errors, instances
def other_cases(ctx):
    for fmt in (None, "msh", "msh2", "unv", "vtk", "stl", "mesh", "bdf", "inp", "su2", "auto"):
        for name in (None, "given"):
            yield ["write", fmt, name]
    yield ["brep", None]
    yield ["brep", "given"]
    for k in range(6):
        yield ["error", k]
    for k in range(4):
        yield ["instance", k]
    for h in (0.2, 0.35, 0.5):
        for what in ("box", "rect", "line"):
            yield ["step", h, what]
    for keep in itertools.product((0, 1), repeat=3):
        for how in ("one", "group", "many"):
            yield ["keep", list(keep), how]
    for n in range(1, 4):
        for pick in itertools.permutations(range(4), n):
            for frag in (0, 1):
                yield ["dimtag", list(pick), frag]
    for n in (1, 2, 3):
        for pick in itertools.product(range(3), repeat=n):
            yield ["dup", list(pick)]
    for d in range(4):
        for md in range(4):
            if md or d:
                yield ["geo", d, md]
    calls = [[sel, d, h] for sel in ([0], [0, 2], [0, 1, 2]) for d in (2, 3) for h in (0.5, 1.0)]
    for a, b in itertools.product(calls, repeat=2):
        for eliminate in (False, True):
            if set(b[0]) <= set(a[0]) or not eliminate:
                yield ["again", [a, b], eliminate]
    for hist in itertools.product(calls[8:], repeat=3):
        yield ["again", list(hist), False]
    for n in (2, 3):
        for pick in itertools.permutations(range(4), n):
            for names in itertools.product("ab", repeat=n):
                yield ["shared", list(pick), list(names)]
    for pts in GEO_POLY:
        for shift in range(len(pts)):
            for step in (None, 0.5):
                yield ["geopoly", pts[shift:] + pts[:shift], step]


GEO_POLY = [[[0, 0], [2, 0], [0, 1]], [[0, 0], [2, 0], [2, 1], [0, 1]], [[0, 0], [2, 0], [2, 2], [1, 1], [0, 2]], [[0, 0], [0, 2], [1, 2], [1, 1], [2, 1], [2, 0]]]


def mesh_measure(dim):
    """Total measure of the elements of a dimension in the model and per physical name."""
    ids, xyz, _ = gmsh.model.mesh.getNodes()
    nodes = {int(i): tuple(xyz[3 * k:3 * k + 3]) for k, i in enumerate(ids)}
    total = sum(measure([nodes[n] for n in e]) for d, t in gmsh.model.getEntities(dim) for e in entity_elements(d, t, nodes))
    by = {}
    for d, g in gmsh.model.getPhysicalGroups(dim):
        by[gmsh.model.getPhysicalName(d, g)] = sum(
            measure([nodes[n] for n in e]) for t in gmsh.model.getEntitiesForPhysicalGroup(d, g) for e in entity_elements(d, int(t), nodes))
    return total, by


def other(case, out):
    kind = case[0]
    if kind == "dimtag":
        pick, frag = case[1:]
        f = oh.factory()
        objs = [f.box([1, 1, 1]), f.box([1, 1, 1], [.5, 0, 0]), f.rectangle([1, 1], [0, 0, 2]), f.make_simplex(1).translate([3, 0, 0])]
        sets = [objs[k] for k in pick]
        if frag:
            sets = list(f.fragment(*sets))
        for o in sets:
            dims = {d for d, t in o.dim_tags}
            require(o.have_common_dim() == (dims.pop() if len(dims) == 1 else None), "common dimension of {} is {}", o.dim_tags, o.have_common_dim())
            o.set_region_from_dimtag()
            require(len(o.regions) == len(o.dim_tags), "regions of {}", o.dim_tags)
        g = f.group(*sets)
        dims = {d for d, t in g.dim_tags}
        require(g.have_common_dim() == (dims.pop() if len(dims) == 1 else None), "common dimension of {} is {}", g.dim_tags, g.have_common_dim())
        require(f.object(2, 1).have_common_dim(g.dim_tags) == g.have_common_dim(), "common dimension of given entities")
        for (a, r), (b, q) in itertools.product(list(g.dimtagreg()), repeat=2):
            require((a == b) == (r.id == q.id) and (a == b) == (r.name == q.name), "regions {} {} of the entities {} {}", r, q, a, b)
        masses = {tuple(dt): f.model.getMass(*dt) for dt in g.dim_tags}
        if frag or not {0, 1} <= set(pick):
            f.make_mesh(sets)
            names = {gmsh.model.getPhysicalName(d, n): (d, [int(t) for t in gmsh.model.getEntitiesForPhysicalGroup(d, n)]) for d, n in gmsh.model.getPhysicalGroups()}
            require(sorted(names.values()) == sorted((d, [t]) for d, t in masses), "groups {} of the entities {}", names, sorted(masses))
            require(all(n == "{}_{}".format(d, t[0]) for n, (d, t) in names.items()), "names of the regions {}", names)
            for dim in range(4):
                for n, m in mesh_measure(dim)[1].items():
                    require(abs(m - masses[dim, names[n][1][0]]) < 1e-6, "measure {} of the region {}", m, n)
        out.outcomes.add(str(case))
        return
    if kind == "again":
        # every mesh of a sequence is the one of its call
        path = mr.scratch("again") + ".msh2"
        f = oh.factory()
        objs = [f.box([2, 1, 1]).set_region("a"), f.box([1, 1, 1], [1.5, 0, 0]).set_region("b"), f.rectangle([1, 1], [5, 0, 0]).set_region("c")]
        objs = f.fragment(*objs)
        size = {"a": (3, 2), "b": (3, 1), "c": (2, 1)}
        for k, (sel, dim, h) in enumerate(case[1]):
            sets = [objs[i] for i in sel]
            for o in sets:
                o.set_mesh_step(h)
            f.make_mesh(sets, dim=dim, eliminate=case[2])
            exp = {"abc"[i]: size["abc"[i]] for i in sel}
            groups = sorted((gmsh.model.getPhysicalName(d, g), d) for d, g in gmsh.model.getPhysicalGroups())
            require(groups == sorted((n, d) for n, (d, m) in exp.items()), "call {}: groups {} instead of {}", k, groups, exp)
            for n, (d, m) in exp.items():
                v = mesh_measure(d)[1][n]
                require(abs(v - (m if d <= dim else 0)) < 1e-6, "call {}: measure {} of the region {}", k, v, n)
            require(dim == 3 or mesh_measure(3)[0] == 0, "call {}: elements above the dimension of the mesh", k)
            for t in sorted({t for o in sets for dt in o.dim_tags for c in [dt] for d, t in gmsh.model.getBoundary(
                    gmsh.model.getBoundary([c], oriented=False) if c[0] == 3 else [c], combined=False, oriented=False)}):
                if {t} <= {t for d, t in gmsh.model.getEntities(1)}:
                    check_step(t, {tuple(np.round(gmsh.model.getValue(0, p, []), 6) + 0.0): h for _, p in gmsh.model.getBoundary([(1, t)], oriented=False)})
            f.write_mesh(path)
            io = gmsh_io.GmshIO(path)
            os.remove(path)
            require({n: d for n, (i, d) in io.physical.items()} == {n: d for n, (d, m) in exp.items()}, "call {}: regions in the file {}", k, io.physical)
            ids = {i: n for n, (i, d) in io.physical.items()}
            vol = dict.fromkeys(exp, 0)
            for t, tags, ns in io.elements.values():
                require(tags[0] in ids, "call {}: element of the unknown region {}", k, tags[0])
                vol[ids[tags[0]]] += measure([io.nodes[n] for n in ns])
            require(all(abs(vol[n] - (m if d <= dim else 0)) < 1e-6 for n, (d, m) in exp.items()), "call {}: measures in the file {}", k, vol)
        out.outcomes.add(str(case))
        return
    if kind == "shared":
        # overlapping objects where some have the same region: their common part is meshed and written once in the region
        pick, names = case[1:]
        path = mr.scratch("shared") + ".msh2"
        f = oh.factory()
        lo = [0, 1, 1, 3]
        objs = [f.box([2, 1, 1], [lo[k] + 1, 0, 0]).set_region(n) for k, n in zip(pick, names)]
        for o in objs:
            o.set_mesh_step(1)
        objs = f.fragment(*objs)
        f.make_mesh(list(objs))
        f.write_mesh(path)
        exp = {n: len({c for k, m in zip(pick, names) if m == n for c in (lo[k], lo[k] + 1)}) for n in names}
        total, by = mesh_measure(3)
        require(set(by) == set(exp) and all(abs(by[n] - v) < 1e-6 for n, v in exp.items()), "volumes {} of the regions instead of {}", by, exp)
        io = gmsh_io.GmshIO(path)
        os.remove(path)
        ids = {i: n for n, (i, d) in io.physical.items()}
        vol = dict.fromkeys(exp, 0)
        seen = set()
        for t, tags, ns in io.elements.values():
            require((tags[0], tuple(sorted(ns))) not in seen, "element {} is twice in the region {}", ns, ids.get(tags[0]))
            seen.add((tags[0], tuple(sorted(ns))))
            vol[ids[tags[0]]] += measure([io.nodes[n] for n in ns])
        require(all(abs(vol[n] - v) < 1e-6 for n, v in exp.items()), "volumes {} of the regions in the file instead of {}", vol, exp)
        out.outcomes.add(str(case))
        return
    if kind == "dup":
        f = oh.factory()
        cells = set()
        for k in case[1]:
            f.box([1, 1, 1], [k, 0, 0])
            cells.add(k)
        f.remove_duplicate_entities()
        ents = f.all_entities()
        vols = [dt for dt in ents if dt[0] == 3]
        require(abs(sum(f.model.getMass(*dt) for dt in vols) - len(cells)) < 1e-6 and len(vols) == len(cells), "{} volumes of {} boxes", len(vols), len(cells))
        shared = sum(k + 1 in cells for k in cells)
        exp = [8 * len(cells) - 4 * shared, 12 * len(cells) - 4 * shared, 6 * len(cells) - shared]
        require([sum(d == k for d, t in ents) for k in range(3)] == exp, "{} entities instead of {}", [sum(d == k for d, t in ents) for k in range(3)], exp)
        out.outcomes.add(str(case))
        return
    if kind in ("geo", "geopoly"):
        f = oh.factory("geo", model_str="geo")
        if kind == "geo":
            d, md = case[1:]
            o, m, nv = f.make_simplex(d), 1 / math.factorial(d), d + 1
        else:
            pts, step = case[1:]
            d, md, m, nv = 2, 2, abs(area2(pts)) / 2, len(pts)
            o = f.make_polygon([[x, y, 0] for x, y in pts], **({} if step is None else {"mesh_step": step}))
        o.set_region("body")
        f.make_mesh([o], dim=md)
        require(len(gmsh.model.getEntities(0)) == nv, "{} vertices", len(gmsh.model.getEntities(0)))
        total, by = mesh_measure(d)
        require(list(by) == ["body"] and len(gmsh.model.getPhysicalGroups()) == 1, "groups {}", by)
        if md >= d:
            require(abs(total - m) < 1e-6 and abs(by["body"] - m) < 1e-6, "measure {} {} instead of {}", total, by, m)
        else:
            require(total == 0, "elements above the dimension of the mesh")
        out.outcomes.add(str(case))
        return
    if kind == "write":
        fmt, name = case[1:]
        base = mr.scratch("w{}".format(fmt))
        f = oh.factory(base)
        r = f.box([1, 1, 1]).set_region("r")
        r.set_mesh_step(1)
        f.make_mesh([r, *r.get_boundary_per_region()])
        kw = {} if fmt is None else {"format": bg.MeshFormat[fmt]}
        before = set(os.listdir(os.path.dirname(base)))
        ext = {None: "msh", "auto": "msh"}.get(fmt, fmt)
        if name is None:
            f.write_mesh(**kw)
        else:
            f.write_mesh(base + "." + ext, **kw)
        new = {x for x in set(os.listdir(os.path.dirname(base))) - before if x.startswith(os.path.basename(base))}
        require(new == {os.path.basename(base) + "." + ext}, "files {} written", sorted(new))
        path = base + "." + ext
        require(os.path.getsize(path) > 100, "empty file {}", path)
        head = open(path, "rb").read(20)
        if ext in ("msh", "msh2"):
            vol = gmsh.model.mesh.getElements(3)[1][0]
            tri = sum(len(x) for x in gmsh.model.mesh.getElements(2)[1])
            gmsh.clear()
            gmsh.open(path)
            require(len(gmsh.model.mesh.getElements(3)[1][0]) == len(vol), "tetrahedra read back")
            require(sum(len(x) for x in gmsh.model.mesh.getElements(2)[1]) == tri, "triangles read back")
            require(sorted((d, gmsh.model.getPhysicalName(d, g)) for d, g in gmsh.model.getPhysicalGroups()) == [(2, ".r"), (3, "r")], "groups read back")
            ver = open(path).read().split("$MeshFormat\n")[1].split()[0]
            require(ver.startswith("2" if ext == "msh2" else "4"), "version {}", ver)
        elif ext == "vtk":
            require(head.startswith(b"# vtk"), "head {}", head)
        elif ext == "stl":
            require(head.startswith(b"solid"), "head {}", head)
        os.remove(path)
    elif kind == "brep":
        base = mr.scratch("b")
        f = oh.factory(base)
        f.box([1, 2, 1])
        f.rectangle([1, 1], [5, 5, 5])
        path = base if case[1] is None else base + "x"
        f.write_brep(None if case[1] is None else path)
        gmsh.clear()
        gmsh.open(path + ".brep")
        require([len(gmsh.model.getEntities(d)) for d in range(4)] == [12, 16, 7, 1], "shapes read back")
        os.remove(path + ".brep")
    elif kind == "error":
        f = oh.factory()
        a, b = f.box([1, 1, 1]), f.box([1, 1, 1], [.5, 0, 0])
        bad = bg.ObjectSet(f, [(3, 77)], [bg.Region.default_region[3]])
        f.synchronize()
        k = case[1]
        call, err = [(lambda: bad.cut(b), bg.BoolOperationError), (lambda: bad.fragment(b), bg.BoolOperationError),
                     (lambda: bad.intersect(b), bg.BoolOperationError), (lambda: f.fragment(a, bad), bg.BoolOperationError),
                     (lambda: bad.get_boundary(), bg.GetBoundaryError), (lambda: bad.set_mesh_step(1), bg.GetBoundaryError)][k]
        try:
            call()
        except err:
            pass
        else:
            require(False, "operation with a missing entity succeeds")
        require(close(a.mass(), 1) and close(b.mass(), 1), "the valid objects were lost")
        require(close(a.cut(b).mass(), 0.5), "the next operation is wrong")
    elif kind == "instance":
        k = case[1]
        f = oh.factory("first")
        o = f.box([1, 1, 1])
        if k < 2:
            try:
                g = bg.GeometryOCC("second")
            except Exception:
                g = None
            require(g is None, "two instances exist")
            require(close(o.mass(), 1) and gmsh.isInitialized(), "the first instance was destroyed")
            require(gmsh.model.getCurrent() == "first", "current model is {}", gmsh.model.getCurrent())
        if k == 2:
            try:
                bg.GeometryOCC("x", model_str="nonsense")
            except Exception:
                pass
            require(gmsh.isInitialized() and close(o.mass(), 1), "a failed constructor destroyed the instance")
        if k == 3:
            f.reinit()
            require(gmsh.model.getEntities() == [], "entities after reinit")
            require(close(f.box([1, 2, 1]).mass(), 2), "box after reinit")
        del o, f
        require(not gmsh.isInitialized(), "gmsh stays initialized after the deletion")
        f = oh.factory("third")
        require(close(f.box([1, 1, 1]).mass(), 1), "new instance does not work")
    elif kind == "step":
        h, what = case[1:]
        f = oh.factory()
        o = {"box": lambda: f.box([2, 2, 2]), "rect": lambda: f.rectangle([2, 2]), "line": lambda: f.make_simplex(1).scale([2, 1, 1])}[what]()
        o.set_region("x")
        o.set_mesh_step(h)
        f.make_mesh([o], dim=1)
        n = 0
        for _, t in gmsh.model.getEntities(1):
            corners = [tuple(np.round(gmsh.model.getValue(0, p, []), 6) + 0.0) for _, p in gmsh.model.getBoundary([(1, t)], oriented=False)]
            check_step(t, {c: h for c in corners})
            n += 1
        require(n == {"box": 12, "rect": 4, "line": 1}[what], "{} curves", n)
    elif kind == "keep":
        keep, how = case[1:]
        f = oh.factory()
        objs = [f.box([1, 1, 1]), f.box([1, 1, 1], [2, 0, 0]), f.rectangle([1, 1], [0, 3, 0])]
        kept = [o for o, k in zip(objs, keep) if k]
        if how == "one" and len(kept) != 1:
            return
        f.keep_only(*([f.group(*kept)] if how == "group" and kept else kept))
        ents = f.all_entities()
        exp = [sum(x) for x in zip(*([[0, 0, 0, 0]] + [[8, 12, 6, 1] if o.dim_tags[0][0] == 3 else [4, 4, 1, 0] for o in kept]))]
        require([sum(d == k for d, t in ents) for k in range(4)] == exp, "{} entities left instead of {}", [sum(d == k for d, t in ents) for k in range(4)], exp)
        for o in kept:
            require(tuple(o.dim_tags[0]) in ents and close(o.mass(), 1), "kept object was lost")
    out.outcomes.add(str(case))


SPACES = {"mesh": make, "names": unique_names, "shapes": shapes, "fractures": fractures, "other": other}


def explore(ctx):
    ctx.each("mesh", mesh_cases(ctx), make, chunk=8)
    ctx.each("names", name_cases(ctx), unique_names)
    ctx.each("shapes", shape_cases(ctx), shapes)
    ctx.each("fractures", fracture_cases(ctx), fractures, chunk=8)
    ctx.each("other", other_cases(ctx), other, chunk=4)


def replay(case):
    SPACES[case["space"]](case["case"], core.Out())
