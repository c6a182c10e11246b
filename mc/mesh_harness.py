"""Conforming tetrahedral meshes for checks of healing and their independent invariants."""
import collections
import itertools
import math

import numpy as np
from bgem.gmsh import gmsh_io


def det(P):
    return float(np.linalg.det(np.array([P[1] - P[0], P[2] - P[0], P[3] - P[0]])))


def kuhn(n):
    """Cubes of the lattice cut to 6 tetrahedra each: nodes, tets, id of lattice point."""
    nx, ny, nz = n
    idx = lambda p: 1 + p[0] + (nx + 1) * (p[1] + (ny + 1) * p[2])
    nodes = {idx(p): [float(x) for x in p] for p in itertools.product(range(nx + 1), range(ny + 1), range(nz + 1))}
    tets = []
    for c in itertools.product(range(nx), range(ny), range(nz)):
        for perm in itertools.permutations(range(3)):
            p = list(c)
            t = [idx(p)]
            for a in perm:
                p[a] += 1
                t.append(idx(p))
            tets.append(t)
    return nodes, tets, idx


def star(c):
    """Cube with all boundary triangles joined to the inner node."""
    V = list(itertools.product((0., 1.), repeat=3))
    nodes = {i + 1: list(v) for i, v in enumerate(V)}
    nodes[9] = [float(x) for x in c]
    tets = []
    for ax in range(3):
        for s in (0, 1):
            a, b, c_, d = [i + 1 for i in range(8) if V[i][ax] == s]
            tets += [[a, b, d, 9], [a, d, c_, 9]]
    return nodes, tets


def orient(nodes, tets):
    """Positive tetrahedra; smallest volume."""
    res, low = [], math.inf
    for t in tets:
        v = det([np.array(nodes[i]) for i in t]) / 6
        low = min(low, abs(v))
        res.append(list(t) if v >= 0 else [t[1], t[0]] + list(t[2:]))
    return res, low


def faces_of(tets):
    cnt = collections.Counter()
    for t in tets:
        for f in itertools.combinations(sorted(t), 3):
            cnt[f] += 1
    return cnt


def make(nodes, tets, fracture=None, lines=(), points=(), as_list=True, first=1):
    """Mesh with boundary triangles (physical 2), fracture triangles (3), lines (4) and points (5)."""
    m = gmsh_io.GmshIO()
    m.nodes = {i: (list(p) if as_list else np.array(p, float)) for i, p in nodes.items()}
    k = first
    for t in tets:
        m.elements[k] = (4, [1, 1], list(t))
        k += 1
    for f, c in sorted(faces_of(tets).items()):
        if c == 1 or (fracture and fracture(f)):
            ph = 2 if c == 1 else 3
            m.elements[k] = (2, [ph, ph], list(f))
            k += 1
    for l in lines:
        m.elements[k] = (1, [4, 4], list(l))
        k += 1
    for p in points:
        m.elements[k] = (15, [5, 5], [p])
        k += 1
    return m


def of_type(m, etype, phys=None):
    return [tuple(int(i) for i in n) for t, tags, n in m.elements.values() if t == etype and (phys is None or tags[0] == phys)]


def volumes(m):
    return [det([np.array(m.nodes[i], float) for i in n]) / 6 for n in of_type(m, 4)]


def area(m, tris):
    s = 0.0
    for a, b, c in tris:
        A, B, C = (np.array(m.nodes[i], float) for i in (a, b, c))
        s += float(np.linalg.norm(np.cross(B - A, C - A))) / 2
    return s


def length(m, lines):
    return sum(float(np.linalg.norm(np.array(m.nodes[a], float) - np.array(m.nodes[b], float))) for a, b in lines)


def gamma(P):
    """3 * inradius / circumradius; 0 for flat ones."""
    v = [P[i] - P[0] for i in (1, 2, 3)]
    V = abs(det(P)) / 6
    size = max(float(np.linalg.norm(P[i] - P[j])) for i, j in itertools.combinations(range(4), 2))
    if V < 1e-14 * size ** 3 or size == 0:
        return 0.0
    S = 0.0
    for f in itertools.combinations(range(4), 3):
        a, b, c = (P[i] for i in f)
        S += float(np.linalg.norm(np.cross(b - a, c - a))) / 2
    c = np.linalg.solve(2 * np.array(v), [float(x @ x) for x in v])
    return 9 * V / S / float(np.linalg.norm(c))


def gamma2(P):
    a, b, c = (float(np.linalg.norm(P[i] - P[j])) for i, j in ((1, 2), (0, 2), (0, 1)))
    if min(a, b, c) == 0:
        return 0.0
    return (b + c - a) * (a + c - b) * (a + b - c) / (a * b * c)


def defects(m, replaced=False):
    """What makes the mesh not conforming. If replaced: boundary triangles can be replaced by fracture triangles collapsed to them."""
    err = []
    tets = of_type(m, 4)
    for t in tets:
        if len(set(t)) < 4:
            err.append("tetrahedron {} with repeated nodes".format(t))
    cnt = faces_of(tets)
    edges = {e for t in tets for e in itertools.combinations(sorted(t), 2)}
    verts = {v for t in tets for v in t}
    over = [f for f, c in cnt.items() if c > 2]
    if over:
        err.append("faces shared by more than two tetrahedra: {}".format(over[:3]))
    bnd = {f for f, c in cnt.items() if c == 1}
    tri = [tuple(sorted(f)) for f in of_type(m, 2, 2)]
    if len(set(tri)) < len(tri):
        err.append("repeated boundary triangles")
    if replaced:
        tri += [f for f in (tuple(sorted(f)) for f in of_type(m, 2, 3)) if f in bnd]
        tri = [f for f in tri if f in bnd]
    if set(tri) != bnd:
        err.append("boundary triangles do not match boundary faces: {} more, {} less".format(len(set(tri) - bnd), len(bnd - set(tri))))
    for f in of_type(m, 2, 3):
        if tuple(sorted(f)) not in cnt:
            err.append("fracture triangle {} is not a face of tetrahedra".format(f))
    for e in of_type(m, 1):
        if tuple(sorted(e)) not in edges:
            err.append("line {} is not an edge of tetrahedra".format(e))
    for p in of_type(m, 15):
        if p[0] not in verts:
            err.append("point {} is not a vertex of tetrahedra".format(p))
    for eid, (t, tags, n) in m.elements.items():
        if any(i not in m.nodes for i in n):
            err.append("element {} has missing nodes".format(eid))
    seen = collections.Counter((t, tuple(sorted(n))) for t, tags, n in m.elements.values())
    dup = [k for k, c in seen.items() if c > 1]
    if dup:
        err.append("repeated elements {}".format(dup[:3]))
    return err


def worst(m):
    """Smallest quality of tetrahedra and triangles, smallest edge."""
    q = [gamma([np.array(m.nodes[i], float) for i in n]) for n in of_type(m, 4)]
    q += [gamma2([np.array(m.nodes[i], float) for i in n]) for n in of_type(m, 2)]
    return min(q) if q else 1.0


def min_edge(m):
    res = math.inf
    for t, tags, n in m.elements.values():
        for a, b in itertools.combinations(n, 2):
            res = min(res, float(np.linalg.norm(np.array(m.nodes[a], float) - np.array(m.nodes[b], float))))
    return res


def incidence(h):
    """node_els of HealMesh has to be exactly the incidence of nodes and elements."""
    real = collections.defaultdict(set)
    for eid, (t, tags, n) in h.mesh.elements.items():
        for i in n:
            real[i].add(eid)
    have = {n: set(s) for n, s in h.node_els.items() if s}
    return None if have == dict(real) else {n: (have.get(n), real.get(n)) for n in set(have) | set(real) if have.get(n) != real.get(n)}
