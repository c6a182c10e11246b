"""G03: measures and qualities of mesh elements are those of the geometry, whatever order of vertices, position and size."""
import itertools
import math

import numpy as np
from bgem.gmsh import heal_mesh, gmsh_io

from .. import core
from ..core import require

LEVEL = "model_checking"
ASSUMPTIONS = ["sizes of elements from 1e-4 to 1e4, coordinates up to 1e6"]

SHAPES = {2: heal_mesh.Line, 3: heal_mesh.Triangle, 4: heal_mesh.Tetrahedron}
H = [0.0, 0.25, 1.0]
FLAT = [0.0, 0.001, 0.5, 1.0]


def maps(ctx_quick):
    """Similarity maps (matrix, shift, scale, sign)."""
    rot = np.array([[2, -2, 1], [1, 2, 2], [-2, -1, 2]]) / 3.0
    res = [(np.eye(3), [0, 0, 0], 1.0)]
    res.append((np.eye(3), [5., -3., 7.], 1.0))
    res.append((rot, [0, 0, 0], 1.0))
    res.append((np.eye(3) * 1e-3, [0, 0, 0], 1e-3))
    res.append((rot * 64, [10., 10., -20.], 64.0))
    res.append((np.diag([-1., 1., 1.]), [0, 0, 0], 1.0))
    res.append((np.eye(3), [-700000., -1100000., 300.], 1.0))
    res.append((rot * 4096, [-700000., -1100000., 300.], 4096.0))
    res.append((np.eye(3) / 4096, [0, 0, 0], 1 / 4096.0))
    return res


def close(a, b, scale=1.0, tol=1e-8):
    return abs(a - b) <= tol * scale


def sq(v):
    return float(sum(x * x for x in v))


def dist(a, b):
    return math.sqrt(sq([x - y for x, y in zip(a, b)]))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def tri_area(a, b, c):
    return math.sqrt(sq(cross(sub(b, a), sub(c, a)))) / 2


def ref_triangle(P):
    a, b, c = P
    e = [dist(a, b), dist(b, c), dist(c, a)]
    A = tri_area(a, b, c)
    r = {"measure": A, "small_edge_ratio": min(e) / max(1e-300, max(e)), "flat_indicator": 2 * A / max(1e-150, max(e)) ** 2}
    if min(e) == 0:
        r["gmsh_gamma"] = 0.0
        r["smooth_grad_error_indicator"] = 0.0
    else:
        r["gmsh_gamma"] = 16 * A * A / sum(e) / (e[0] * e[1] * e[2])
        r["smooth_grad_error_indicator"] = 4 / math.sqrt(3) * A / (e[0] * e[1] * e[2]) ** (2 / 3)
    return r


def ref_tetra(P):
    v = [sub(P[i], P[0]) for i in (1, 2, 3)]
    V = dot(cross(v[0], v[1]), v[2]) / 6
    E = {(i, j): dist(P[i], P[j]) for i, j in itertools.combinations(range(4), 2)}
    F = [tri_area(*[P[j] for j in range(4) if j != i]) for i in range(4)]    # opposite to node i
    r = {"measure": V, "small_edge_ratio": min(E.values()) / max(1e-300, max(E.values())),
         "flat_indicator": min([3 * abs(V) / f for f in F if f > 0] or [0.0]) / max(1e-300, max(E.values()))}
    r["area"] = max(F)
    if abs(V) < 1e-14 * max(E.values()) ** 3 or V == 0:
        r["gmsh_gamma"] = 0.0
        r["smooth_grad_error_indicator"] = 0.0
        return r
    c = np.linalg.solve(2 * np.array(v), [sq(x) for x in v])
    r["gmsh_gamma"] = 3 * (3 * abs(V) / sum(F)) / math.sqrt(sq(c))
    # faces i, j (opposite to i, j) share the edge of the other two nodes
    s = 0
    for i, j in itertools.combinations(range(4), 2):
        k, l = [x for x in range(4) if x not in (i, j)]
        s += F[i] * F[j] * E[k, l] ** 2
    r["smooth_grad_error_indicator"] = abs(V) * (sum(F) / s) ** 0.75 / (2.0 * math.sqrt(2.0 / 3.0) / 9.0)
    return r


DIMS = {"measure": 1, "small_edge_ratio": 0, "flat_indicator": 0, "gmsh_gamma": 0, "smooth_grad_error_indicator": 0}


def vertices(n, ctx):
    """All simplices with the first vertex in the origin and the others on the lattice, up to the order."""
    L = [list(p) for p in itertools.product(H if n == 3 or ctx.quick else [0.0, 0.25, 1.0, 2.0], repeat=3)]
    return [[[0., 0., 0.]] + [list(p) for p in c] for c in itertools.combinations_with_replacement(L, n - 1)]


def nearly_flat(ctx):
    for c in itertools.product([0.1, 0.5, 1.0, 0.9], [0.1, 0.5, 1.0], [1e-1, 1e-3, 1e-6, 1e-9, 0.0]):
        yield [[0., 0., 0.], [1., 0., 0.], [0., 1., 0.], list(c)]
        yield [[0., 0., c[2]], [1., 0., 0.], [0., 1., 0.], [c[0], c[1], -c[2]]]
    for k in (1, 3, 6, 9, 12):
        h = 10. ** -k
        yield [[0., 0., 0.], [1., 1., 0.], [1., 0., h], [0., 1., h]]
        yield [[1., 0., 0.], [0., 1., 0.], [-1., 0., h], [0.6, -0.8, 0.]]
        yield [[0., 0., 0.], [h, 0., 0.], [0., h, 0.], [0., 0., 1.]]
        yield [[0., 0., 0.], [1., 0., 0.], [2., h, 0.], [0., 0., 1.]]


def tetra_cases(ctx):
    for P in vertices(4, ctx):
        yield P
    for P in nearly_flat(ctx):
        yield P


def shape(case, out):
    P0 = case
    n = len(P0)
    perms = list(itertools.permutations(range(n)))
    with np.errstate(all="ignore"):
        for M, shift, s in maps(True):
            P = [[float(x) for x in np.array(M) @ p + np.array(shift)] for p in P0]
            size = max(dist(a, b) for a, b in itertools.combinations(P, 2)) or s
            ref = ref_triangle(P) if n == 3 else ref_tetra(P)
            off = max(abs(x) for x in shift) / size       # rounding of differences
            tol = 1e-9 + 1e-14 * off
            for perm in (perms if s == 1.0 and not any(shift) else perms[:7:3]):
                sgn = 1
                if n == 4:
                    sgn = (-1) ** sum(perm[i] > perm[j] for i, j in itertools.combinations(range(4), 2))
                e = SHAPES[n](np.array([P[i] for i in perm]))
                out.transitions += 1
                for name, dim in DIMS.items():
                    v = getattr(e, name)
                    v = v() if callable(v) else v
                    exp = ref[name] * (sgn if name == "measure" else 1)
                    sc = size ** (n - 1) if dim else 1.0
                    t = tol
                    if name in ("gmsh_gamma", "smooth_grad_error_indicator") or name == "flat_indicator":
                        # ill conditioned for degenerate shapes
                        t = 1e-6 if min(ref["gmsh_gamma"], ref["small_edge_ratio"]) > 1e-2 else 1e-2
                    require(np.isfinite(v), "{} of {} is {}", name, [P[i] for i in perm], v)
                    if name == "flat_indicator" and n == 4 and ref["area"] < 1e-9 * size ** 2:
                        continue                      # vertices on a line: 0 / 0
                    require(close(float(v), exp, sc, t), "{} of {} is {} instead of {}", name, [P[i] for i in perm], v, exp)
                    if name in ("gmsh_gamma", "smooth_grad_error_indicator"):
                        require(-1e-9 <= v <= 1 + 1e-9, "{} of {} is {}", name, [P[i] for i in perm], v)
                if n == 4:
                    normals(e, sgn * (1 if ref["measure"] >= 0 else -1), size)
    out.states += 1
    out.outcomes.add("%.3f" % ref["gmsh_gamma"])


def normals(e, sgn, size):
    N = e.nodes
    for face, nrm, area in zip(e.vtxs_faces, e.face_normals, e.face_areas):
        opp = [j for j in range(4) if j not in face][0]
        a, b, c = [list(map(float, N[j])) for j in face]
        require(close(area, tri_area(a, b, c), size ** 2), "area of face {}", face)
        require(close(math.sqrt(sq(nrm)), 2 * area, size ** 2), "normal of face {} has length {}", face, math.sqrt(sq(nrm)))
        require(close(dot(nrm, sub(b, a)), 0, size ** 3) and close(dot(nrm, sub(c, a)), 0, size ** 3), "normal of face {}", face)
        if abs(e.measure) > 1e-8 * size ** 3:
            d = dot(nrm, sub(list(map(float, N[opp])), a))
            require(d * sgn < 0, "normal of face {} is not outer", face)
    n = e.common_normal()
    U = np.array([N[b] - N[a] for a, b in itertools.combinations(range(4), 2)])
    ev = np.linalg.eigvalsh(U.T @ U)
    require(close(np.linalg.norm(n), 1, 1), "common normal is not unit")
    require(close(float(np.sum((U @ n) ** 2)), float(ev[0]), size ** 2), "common normal has sum of squares {} instead of {}",
            float(np.sum((U @ n) ** 2)), ev[0])
    u, w = N[1] - N[0], N[3] - N[2]
    if np.linalg.norm(np.cross(u, w)) > 1e-6 * size ** 2:
        d, nn = e.skew_line_dist()
        lst = np.linalg.lstsq(np.stack([u, -w], axis=1), N[2] - N[0], rcond=None)
        x = lst[0]
        exp = np.linalg.norm(N[0] + x[0] * u - N[2] - x[1] * w)
        require(close(abs(d), exp, size, 1e-7), "distance of edges is {} instead of {}", d, exp)


def lines(case, out):
    a, b = case
    for p in ((a, b), (b, a)):
        e = heal_mesh.Line(np.array(p))
        require(close(e.measure, dist(a, b)), "length")
        require(e.small_edge_ratio() == (1.0 if a != b else 0.0), "edge ratio")


# ---------------------------------------------------------------- statistics of a mesh
TETS = {"reg": [[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]], "unit": [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]],
        "neg": [[0, 0, 0], [0, 1, 0], [1, 0, 0], [0, 0, 1]], "flat": [[0, 0, 0], [1, 1, 0], [1, 0, 1e-3], [0, 1, 1e-3]],
        "null": [[0, 0, 0], [1, 1, 0], [1, 0, 0], [0, 1, 0]], "pt": [[1, 1, 1]] * 4, "needle": [[0, 0, 0], [.01, 0, 0], [0, .01, 0], [0, 0, 1]]}
TRIS = {"reg": [[1, 0, 0], [0, 1, 0], [0, 0, 1]], "unit": [[0, 0, 0], [1, 0, 0], [0, 1, 0]], "flat": [[0, 0, 0], [1, 0, 0], [.5, 1e-3, 0]],
        "null": [[0, 0, 0], [1, 0, 0], [2, 0, 0]], "two": [[0, 0, 0], [0, 0, 0], [2, 0, 0]], "pt": [[1, 2, 3]] * 3}


TRIS["reg2"] = [[0, 0, 0], [0, 2, 2], [2, 0, 2]]


def border(k, method):
    """Isosceles triangle with the quality at the border 2**-k of bins, or as close to it as the numbers permit."""
    quality = lambda y: float(getattr(heal_mesh.Triangle(np.array([[0., 0., 0.], [1., 0., 0.], [.5, y, 0.]])), method)())
    lo, hi = 0.0, math.sqrt(3) / 2
    while lo < (lo + hi) / 2 < hi:
        mid = (lo + hi) / 2
        lo, hi = (mid, hi) if quality(mid) < 2.0 ** -k else (lo, mid)
    return [[[0, 0, 0], [1, 0, 0], [.5, y, 0]] for y in (lo, hi)]


BORDERS = {"{}{}{}".format(m, k, "lu"[i]): t for m in ("gmsh_gamma", "smooth_grad_error_indicator") for k in range(1, 16) for i, t in enumerate(border(k, m))}
TRIS.update(BORDERS)


def stat_cases(ctx):
    for k in BORDERS:
        for e in ([[2, k]], [[2, k], [4, "unit"]], [[2, "reg2"], [2, k], [4, "reg"]]):
            for tol in (0.01, ["own", len(e) - 1], ["own", 0]):
                yield [e, tol]
    el = [[4, k] for k in TETS] + [[2, k] for k in TRIS if k not in BORDERS] + [[1, "l"], [15, "p"]]
    for n in range(1, ctx.pick(4, 5)):
        for c in itertools.combinations(range(len(el)), n):
            for tol in (0.0, 0.01, 0.5, ["own", 0]) if n < 3 else (0.01,):
                yield [[el[i] for i in c], tol]
    for n in ctx.pick((40, 130), (40, 130, 600)):
        for k in (1, 3, 7, 11):
            for tol in (0.0, 0.01, 0.1, 0.5, ["own", 0], ["own", 5]):
                yield [[el[(i * k + i // 5) % len(el)] for i in range(n)], tol]


def stats(case, out):
    els, tol = case
    m = gmsh_io.GmshIO()
    nid = 1
    exp = {"flow_stats": {}, "gamma_stats": {}}
    for i, (t, k) in enumerate(els):
        P = {4: TETS, 2: TRIS}.get(t, {}).get(k) or [[0., 0., 0.], [1., 2., 3.]][:1 if t == 15 else 2]
        ids = []
        for p in P:
            m.nodes[nid] = [float(x) for x in p]
            ids.append(nid)
            nid += 1
        eid = 3 + 2 * i
        m.elements[eid] = (t, [1, 1], ids)
        if t in (2, 4):
            r = ref_triangle([[float(x) for x in p] for p in P]) if t == 2 else ref_tetra([[float(x) for x in p] for p in P])
            exp["gamma_stats"][eid] = r["gmsh_gamma"]
            exp["flow_stats"][eid] = r["smooth_grad_error_indicator"]
    with np.errstate(all="ignore"):
        h = heal_mesh.HealMesh(m)
        # values by the shapes themselves (checked in spaces tria, tetra) decide at borders of the bins
        own = {q: {e: float(getattr(SHAPES[m.elements[e][0] if m.elements[e][0] == 4 else 3](np.array([m.nodes[i] for i in m.elements[e][2]])), w)())
                   for e in vals} for (q, vals), w in zip(exp.items(), ("smooth_grad_error_indicator", "gmsh_gamma"))}
        if isinstance(tol, list):
            tol = own["gamma_stats"].get(3 + 2 * tol[1], 0.25)
        hist, bins, bad = h.quality_statistics(tol)
    require(set(hist) == set(exp) == set(bad), "statistics {}", set(hist))
    for q, vals in exp.items():
        require(len(bins) == len(hist[q]) and list(bins) == sorted(bins) and bins[-1] == np.inf, "bins {}", bins)
        require(int(sum(hist[q])) == len(vals), "{} elements counted instead of {}", sum(hist[q]), len(vals))
        require(all(abs(own[q][e] - v) <= 1e-6 for e, v in vals.items()), "qualities {} instead of {}", own[q], vals)
        require(sorted(bad[q]) == sorted(e for e, v in own[q].items() if v <= tol), "bad elements of {} are {}, qualities {}", q, bad[q], own[q])
        require(isinstance(case[1], list) or sorted(bad[q]) == sorted(e for e, v in vals.items() if v <= tol + 1e-12), "bad elements of {} are {}, qualities {}", q, bad[q], vals)
        low = -np.inf
        for b, n in zip(bins, hist[q]):
            lo, hi = (sum(f(low <= v * (1 - 1e-9) < b, low <= v * (1 + 1e-9) < b) for v in vals.values()) for f in (min, max))
            require(lo <= n <= hi, "{} elements with {} in [{}, {}) instead of {}", n, q, low, b, lo)
            require(n == sum(low <= v < b for v in own[q].values()), "{} elements with {} in [{}, {}), qualities {}", n, q, low, b, own[q])
            low = b
    out.outcomes.add(str(case))


SPACES = {"tria": shape, "tetra": shape, "line": lines, "stats": stats}


def explore(ctx):
    L = [list(p) for p in itertools.product(H, repeat=3)]
    ctx.each("line", [[a, b] for a in L for b in L], lines)
    ctx.each("tria", vertices(3, ctx), shape)
    ctx.each("tetra", tetra_cases(ctx), shape)
    ctx.each("stats", stat_cases(ctx), stats)


def replay(case):
    SPACES[case["space"]](case["case"], core.Out())
