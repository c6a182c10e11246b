"""G05: healing of a mesh removes bad elements and close nodes and keeps the mesh conforming, its domain, boundary and fractures."""
import collections
import itertools
import math

import numpy as np
from bgem.gmsh import heal_mesh, gmsh_io
from scipy.spatial import Delaunay

from .. import core
from .. import mesh_harness as mh
from ..core import require

LEVEL = "model_checking"
ASSUMPTIONS = ["meshes are conforming with positive tetrahedra and flat boundaries; healing may replace as many elements as it needs (fraction_of_new_els=100)",
               "volume, area of fractures and length of lines are kept up to the displacements permitted by the tolerance"]

TOL = 0.02


def heal(m, tol=TOL, node_tol=1e-4, **kw):
    h = heal_mesh.HealMesh(m, node_tol=node_tol)
    pts = np.array([list(map(float, p)) for p in m.nodes.values()])
    h.limit_of_test = node_tol * float(np.max(pts.max(axis=0) - pts.min(axis=0)))
    with np.errstate(all="ignore"):
        h.heal_mesh(gamma_tol=tol, **kw) if kw else h.heal_mesh(gamma_tol=tol, fraction_of_new_els=100)
    return h


def sizes(m):
    return {"volume": sum(mh.volumes(m)), "absolute volume": sum(abs(v) for v in mh.volumes(m)), "boundary": mh.area(m, mh.of_type(m, 2, 2)),
            "fracture": mh.area(m, mh.of_type(m, 2, 3)), "line": mh.length(m, mh.of_type(m, 1)), "points": len(mh.of_type(m, 15))}


def snapshot(m):
    return ({n: [float(x) for x in p] for n, p in m.nodes.items()}, {e: (t, list(tg), [int(i) for i in n]) for e, (t, tg, n) in m.elements.items()})


PLACES = {"large": (4096.0, (0, 0, 0)), "tiny": (1 / 4096.0, (0, 0, 0)), "far": (1.0, (-700000.0, -1100000.0, 300.0)), "far large": (512.0, (-700000.0, -1100000.0, 300.0))}
PLACE = [None]


def place(m):
    """Move and scale the mesh (by powers of two) as asked by the case."""
    if PLACE[0] is not None:
        f, o = PLACES[PLACE[0]]
        for i, p in list(m.nodes.items()):
            m.nodes[i] = [f * float(x) + y for x, y in zip(p, o)]


def moved(case, out):
    PLACE[0] = case[0]
    try:
        SPACES[case[1]](case[2], out)
    finally:
        PLACE[0] = None


DECOR = [None]


def decorate(m, mode):
    """Lines on edges and fracture triangles on inner faces of the worst tetrahedron or of all of them."""
    tets = sorted(of for of in mh.of_type(m, 4))
    tets.sort(key=lambda t: mh.gamma([np.array(m.nodes[i], float) for i in t]))
    if mode[0] == "w":
        tets = tets[:1]
    have = {tuple(sorted(n)) for t, tg, n in m.elements.values() if t in (1, 2)}
    k = max(m.elements) + 1 if mode[1] == "+" else 1000
    add = {(1, e) for t in tets for e in itertools.combinations(sorted(t), 2)} if "e" in mode[2:] else set()
    add |= {(2, f) for t in tets for f in itertools.combinations(sorted(t), 3)} if "f" in mode[2:] else set()
    for t, n in sorted(add):
        if n not in have:
            m.elements[k] = (t, [5 - t, 5 - t], list(n))
            k += 1


def decorated(case, out):
    DECOR[0] = case[0]
    try:
        SPACES[case[1]](case[2], out)
    finally:
        DECOR[0] = None


def conforming(m, out, tol=TOL, slack=0.03, label=""):
    """Heal a conforming mesh and check all what is promised."""
    place(m)
    if DECOR[0]:
        decorate(m, DECOR[0])
    d = mh.defects(m)
    if d:
        out.extra["not conforming input"] += 1
        return None
    before = sizes(m)
    bad = mh.worst(m) <= tol * (1 - 1e-6)
    good = mh.worst(m) > tol * (1 + 1e-6) and mh.min_edge(m) > 1.001e-4 * extent(m)
    snap = snapshot(m)
    box = bounds(m)
    h = heal(m, tol)
    d = mh.defects(m, replaced=bool(DECOR[0]))
    require(not d, "healed mesh is not conforming: {}", "; ".join(d[:3]))
    require(mh.incidence(h) is None, "elements of nodes are wrong: {}", mh.incidence(h))
    q = mh.worst(m)
    require(q > tol * (1 - 1e-6), "element with quality {} left (tolerance {})", q, tol)
    require(mh.min_edge(m) >= h.limit_of_test * (1 - 1e-6), "nodes with distance {} left", mh.min_edge(m))
    after = sizes(m)
    for k in before:
        if DECOR[0] and k in ("fracture", "line", "boundary"):
            continue                       # parts collapsed to each other
        require(abs(before[k] - after[k]) <= slack * max(before[k], 1e-9) + (0 if k != "points" else 0),
                "{} changed from {} to {}", k, before[k], after[k])
    box2 = bounds(m)
    require(np.allclose(box, box2, atol=slack * extent(m)), "extent of the mesh changed from {} to {}", box, box2)
    if good:
        require(snapshot(m) == snap, "good mesh was changed")
        out.extra["good"] += 1
    if bad:
        out.extra["healed"] += 1
        require(snapshot(m) != snap, "bad mesh was not changed")
    if q > tol * (1 + 1e-6) and mh.min_edge(m) > 1.01e-4 * extent(m):
        # healed mesh is a good one: healing it again, by the same object or by a new one, changes nothing
        healed = snapshot(m)
        h.heal_mesh(gamma_tol=tol, fraction_of_new_els=100)
        require(snapshot(m) == healed, "second healing changed the healed mesh")
        require(mh.incidence(h) is None, "elements of nodes are wrong after the second healing: {}", mh.incidence(h))
        if (len(snap[0]) + len(snap[1])) % 4 == 0:
            heal(m, tol)
            require(snapshot(m) == healed, "healing of the healed mesh changed it")
    out.outcomes.add((len(m.nodes) - len(snap[0]), len(m.elements) - len(snap[1])))
    return h


def bounds(m):
    used = {i for t, tg, n in m.elements.values() for i in n}
    P = np.array([np.array(m.nodes[i], float) for i in used])
    return np.array([P.min(axis=0), P.max(axis=0)])


def extent(m):
    b = bounds(m)
    return float(np.max(b[1] - b[0]))


# ---------------------------------------------------------------- inner node of a cube
def star_cases(ctx):
    v = ctx.pick([0.00005, 0.004, 0.01, 0.1, 0.3, 0.5, 0.496, 0.8, 0.995], [0.00005, 0.001, 0.004, 0.01, 0.02, 0.05, 0.1, 0.3, 0.5, 0.496, 0.4999, 0.8, 0.98, 0.995])
    for c in itertools.product(v, repeat=3):
        yield [list(c), TOL]
    for c in itertools.product([0.01, 0.3, 0.496, 0.9], repeat=3):
        for tol in (0.001, 0.1):
            yield [list(c), tol]


def star(case, out):
    c, tol = case
    nodes, tets = mh.star(c)
    tets, low = mh.orient(nodes, tets)
    conforming(mh.make(nodes, tets, as_list=sum(c) > 1), out, tol, 0.05 if tol < 0.05 else 0.2)


# ---------------------------------------------------------------- moved node of a cut lattice
WHERE = {"inner": (1, 1, 1), "face": (1, 1, 0), "edge": (1, 0, 0), "fracture": (1, 1, 1), "line": (1, 1, 1)}


def lattice_cases(ctx):
    v = ctx.pick([-0.9999, -0.97, -0.9, -0.5, 0, .004, .3, .6, .95, .995], [-0.9999, -0.97, -0.93, -0.9, -0.7, -0.5, -.1, 0, .004, .3, .6, .7, .93, .95, .98, .995, .9999])
    for kind, node in WHERE.items():
        dims = [i for i in range(3) if node[i] == 1]
        if kind == "fracture":
            dims = [0, 1]
        if kind == "line":
            dims = [0]
        for d in itertools.product(v, repeat=len(dims)):
            yield [kind, list(d)]
    # two nodes moved
    v = [-0.97, -0.5, .004, .6, .95]
    for a, b in itertools.product(itertools.product(v, repeat=2), repeat=2):
        yield ["two", list(a) + list(b)]


def lattice(case, out):
    kind, d = case
    nodes, tets, idx = mh.kuhn((2, 2, 2) if kind != "two" else (3, 2, 2))
    frac, lines, points = None, (), ()
    if kind == "two":
        nodes[idx((1, 1, 1))][0] += d[0]
        nodes[idx((1, 1, 1))][1] += d[1]
        nodes[idx((2, 1, 1))][2] += d[2]
        nodes[idx((2, 1, 1))][1] += d[3]
    else:
        n = WHERE[kind]
        dims = [0] if kind == "line" else [0, 1] if kind == "fracture" else [i for i in range(3) if n[i] == 1]
        plane = {i for i, p in nodes.items() if p[2] == 1}
        for i, x in zip(dims, d):
            nodes[idx(n)][i] += x
        if kind in ("fracture", "line"):
            frac = lambda f: all(i in plane for i in f)
        if kind == "line":
            lines = [(idx((0, 1, 1)), idx((1, 1, 1))), (idx((1, 1, 1)), idx((2, 1, 1)))]
            points = [idx((0, 1, 1)), idx((2, 2, 2))]
    vol0 = [mh.det([np.array(mh_nodes[i]) for i in t]) for mh_nodes in (mh.kuhn((2, 2, 2) if kind != "two" else (3, 2, 2))[0],) for t in tets]
    vol1 = [mh.det([np.array(nodes[i]) for i in t]) for t in tets]
    if min(a * b for a, b in zip(vol0, vol1)) <= 0:
        out.extra["inverted input"] += 1
        return
    tets, low = mh.orient(nodes, tets)
    conforming(mh.make(nodes, tets, frac, lines, points), out, TOL, 0.05)


# ---------------------------------------------------------------- larger lattices with many moved nodes
def many_cases(ctx):
    v = [(-.97, 0, 0), (.6, .95, -.5), (0, 0, .996), (.3, -.93, .004)]
    for size in ctx.pick(((3, 3, 3), (4, 4, 3)), ((3, 3, 3), (4, 4, 3), (5, 5, 5))):
        for a, b in itertools.product(range(len(v)), repeat=2):
            for step in (2, 3, 5):
                yield [list(size), list(v[a]), list(v[b]), step]


def many(case, out):
    size, a, b, step = case
    nodes, tets, idx = mh.kuhn(size)
    old = {i: list(p) for i, p in nodes.items()}
    inner = [p for p in itertools.product(*[range(1, n) for n in size])]
    vol0 = [mh.det([np.array(old[i]) for i in t]) for t in tets]
    for k, p in enumerate(inner):
        if k % step == 0:
            i = idx(p)
            keep = list(nodes[i])
            d = a if k // step % 2 else b
            nodes[i] = [x + y for x, y in zip(keep, d)]
            if any(v * mh.det([np.array(nodes[j]) for j in t]) <= 0 for v, t in zip(vol0, tets) if i in t):
                nodes[i] = keep
                continue
            out.extra["moved nodes"] += 1
    tets, low = mh.orient(nodes, tets)
    conforming(mh.make(nodes, tets), out, TOL, 0.05)


# ---------------------------------------------------------------- Delaunay meshes of nearly regular points: slivers
def delaunay_cases(ctx):
    for e in ctx.pick([1e-3, 3e-2], [1e-4, 1e-3, 1e-2, 3e-2, 0.1, 0.3]):
        for c in itertools.product((-1, 0, 1), repeat=3):
            for f in itertools.product((-1, 0.3, 1), repeat=2):
                for g in ((0, 0), (1, -0.7)):
                    yield [e, list(c), list(f), list(g)]


def delaunay(case, out):
    """3 x 3 x 3 points of a cube, the inner, face and edge ones moved within the cube, faces and edges."""
    e, c, f, g = case
    pts = [[float(x) for x in p] for p in itertools.product(range(3), repeat=3)]
    k = 0
    for i, p in enumerate(pts):
        dims = [a for a in range(3) if p[a] == 1]
        if len(dims) == 3:
            d = c
        elif len(dims) == 2:
            k += 1
            d = [f[0] * (-1) ** k, f[1] * (1 if k % 3 else -0.5)]
        else:
            d = [g[i % 2] * 0.8]
        for a, x in zip(dims, d):
            pts[i][a] += e * x
    P = np.array(pts)
    nodes = {i + 1: p for i, p in enumerate(pts)}
    tets = []
    for t in Delaunay(P).simplices:
        if abs(mh.det(P[t])) > 1e-12:
            tets.append([int(i) + 1 for i in t])
    tets, low = mh.orient(nodes, tets)
    conforming(mh.make(nodes, sorted(tets), first=5), out, TOL, 0.05)


# ---------------------------------------------------------------- single elements of any shape
def single_cases(ctx):
    L = [list(p) for p in itertools.product(ctx.pick([0.0, 1e-5, 0.03, 1.0], [0.0, 1e-5, 0.03, 0.5, 1.0]), repeat=3)]
    for a, b in itertools.combinations_with_replacement(L[::1], 2):
        yield [[[0., 0., 0.], [1., 0., 0.], a, b], 0]
    for a in L:
        for b in ([0.3, 0.3, 0.], [0.5, 0.02, 0.], [1., 1., 0.]):
            for faces in (1, 2, 3):
                yield [[[0., 0., 0.], [1., 0., 0.], a, b], faces]
                yield [[[0., 0., 0.], b, [1., 0., 0.], a], faces]


def single(case, out):
    """One tetrahedron with some of its faces (1), also edges (2), also vertices (3), of any, even degenerate shape."""
    P, parts = case
    m = gmsh_io.GmshIO()
    m.nodes = {i + 1: list(p) for i, p in enumerate(P)}
    m.nodes[5] = [-3., -3., -3.]
    els = [(4, [1, 1], [1, 2, 3, 4])]
    if parts:
        els += [(2, [2, i], list(f)) for i, f in enumerate(itertools.combinations((1, 2, 3, 4), 3))]
    if parts > 1:
        els += [(1, [3, i], list(f)) for i, f in enumerate(itertools.combinations((1, 2, 3, 4), 2))]
    if parts > 2:
        els += [(15, [4, i], [i]) for i in (1, 2, 3, 4)]
    for i, e in enumerate(els):
        m.elements[10 + i] = e
    good = mh.gamma([np.array(p) for p in P])
    h = heal(m, TOL)
    require(mh.incidence(h) is None, "elements of nodes are wrong: {}", mh.incidence(h))
    q = mh.worst(m)
    require(q > TOL * (1 - 1e-6), "element with quality {} left", q)
    require(mh.min_edge(m) >= h.limit_of_test * (1 - 1e-6), "nodes with distance {} left", mh.min_edge(m))
    seen = collections.Counter((t, tuple(sorted(n))) for t, tg, n in m.elements.values())
    require(all(c == 1 for c in seen.values()), "repeated elements {}", [k for k, c in seen.items() if c > 1])
    for t, tg, n in m.elements.values():
        require(len(set(n)) == len(n), "element {} with repeated nodes", n)
        require(all(i in m.nodes for i in n), "element {} with missing nodes", n)
    if good > TOL * 1.001 and not parts:
        require(len(m.elements) == 1 and [tuple(x) for x in m.nodes.values()][:4] == [tuple(p) for p in P] or min(math.dist(a, b) for a, b in itertools.combinations(P, 2)) < h.limit_of_test,
                "good tetrahedron was changed")
    out.outcomes.add(len(m.elements))


# ---------------------------------------------------------------- degenerate and repeated elements added to a good mesh
def extra_cases(ctx):
    bad = [[1, [1, 1]], [2, [1, 1, 2]], [2, [3, 4, 3]], [2, [9, 9, 9]], [4, [1, 2, 3, 1]], [4, [5, 9, 9, 7]], [4, [2, 2, 2, 2]], [1, [30, 30]], [2, [30, 30, 30]]]
    dup = [["dup", i] for i in (0, 3, 12, 15)]
    al = bad + dup
    for n in (1, 2):
        for c in itertools.permutations(range(len(al)), n):
            for pos in (0, 1):
                yield [[al[i] for i in c], pos]


def extra(case, out):
    adds, pos = case
    nodes, tets = mh.star([0.5, 0.45, 0.55])
    tets, low = mh.orient(nodes, tets)
    base = mh.make(nodes, tets, first=100)
    base.nodes[30] = [0.2, 0.2, 0.2]
    snap = snapshot(base)
    k = 1 if pos else 1000
    for a in adds:
        if a[0] == "dup":
            t, tg, n = base.elements[100 + a[1]]
            base.elements[k] = (t, list(tg), list(n[1:]) + [n[0]])
        else:
            base.elements[k] = (a[0], [6, 6], list(a[1]))
        k += 1
    h = heal(base)
    nn, ee = snapshot(base)
    require(nn == snap[0], "nodes were changed")
    got = collections.Counter((t, tuple(tg), tuple(sorted(n))) for t, tg, n in ee.values())
    exp = collections.Counter((t, tuple(tg), tuple(sorted(n))) for t, tg, n in snap[1].values())
    require(got == exp, "elements left {}, missing {}", got - exp, exp - got)
    require(mh.incidence(h) is None, "elements of nodes are wrong: {}", mh.incidence(h))
    out.outcomes.add(str(case))


# ---------------------------------------------------------------- limit of new elements
def limit_cases(ctx):
    for c in itertools.product([0.00005, 0.01, 0.496], repeat=3):
        for fr in (1, 1.2, 2, 5):
            yield [list(c), fr]


def limit(case, out):
    """Healing stops at the limit of new elements, but leaves a conforming mesh."""
    c, fr = case
    nodes, tets = mh.star(c)
    tets, low = mh.orient(nodes, tets)
    m = mh.make(nodes, tets)
    top = max(m.elements)
    h = heal(m, TOL, fraction_of_new_els=fr)
    d = mh.defects(m)
    require(not d, "healed mesh is not conforming: {}", "; ".join(d[:3]))
    require(max(m.elements) <= max(top, fr * top) + 100, "{} elements made, limit {}", max(m.elements), fr * top)
    out.outcomes.add(len(m.elements))


SPACES = {"many": many, "star": star, "lattice": lattice, "delaunay": delaunay, "single": single, "extra": extra, "limit": limit, "moved": moved, "decorated": decorated}


def explore(ctx):
    ctx.each("star", star_cases(ctx), star, chunk=8)
    ctx.each("many", many_cases(ctx), many, chunk=1)
    ctx.each("lattice", lattice_cases(ctx), lattice, chunk=16)
    ctx.each("delaunay", delaunay_cases(ctx), delaunay, chunk=8)
    ctx.each("moved", [[p, k, c] for k, f in (("star", star_cases), ("lattice", lattice_cases), ("delaunay", delaunay_cases))
                       for p in PLACES for c in [x for x in f(ctx)][::ctx.pick(13, 3)]], moved, chunk=8)
    ctx.each("decorated", [[d, k, c] for k, f in (("star", star_cases), ("lattice", lattice_cases), ("delaunay", delaunay_cases))
                           for d in ("w+e", "w+f", "w+ef", "a+e", "a+f", "a+ef") for c in [x for x in f(ctx)][::ctx.pick(7, 1)]], decorated, chunk=8)
    ctx.each("single", single_cases(ctx), single)
    ctx.each("extra", extra_cases(ctx), extra, chunk=16)
    ctx.each("limit", limit_cases(ctx), limit, chunk=8)


def replay(case):
    SPACES[case["space"]](case["case"], core.Out())
