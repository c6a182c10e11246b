"""
Histories of line / point insertions and segment deletions on a small integer grid, with an exact (rational)
reference of the resulting drawing.

Operations (JSON):
  ["line", [x0, y0], [x1, y1]]   add_line
  ["line", [x0, y0], [x1, y1], j, k]   the same with end points displaced by JIT[j], JIT[k] (a tenth of the tolerance)
  ["pt", [x, y]]                 add_point (grid or half grid position; snapping to segments happens)
  ["del", k]                     delete the k-th segment in the canonical (coordinate) order
  ["delp", k]                    delete the k-th vertex with its segments
Coordinates are multiplied by SCALE so that all features are separated by much more than the tolerance.
"""
from fractions import Fraction as F

from . import core, poly_harness as ph
from .core import require

SCALE = 10
JIT = [(0.0, 0.0), (0.001, -0.0007), (-0.0008, 0.001)]


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1])


def cr(u, v):
    return u[0] * v[1] - u[1] * v[0]


def on_open(p, a, b):
    if p == a or p == b or cr(sub(b, a), sub(p, a)) != 0:
        return False
    d = sub(b, a)
    t = sub(p, a)
    s = t[0] * d[0] + t[1] * d[1]
    return 0 < s < d[0] * d[0] + d[1] * d[1]


def isec(a, b, c, d):
    """Proper intersection of open segments or None."""
    u, v, w = sub(b, a), sub(d, c), sub(c, a)
    den = cr(u, v)
    if den == 0:
        return None
    t, s = cr(w, v) / den, cr(w, u) / den
    if 0 < t < 1 and 0 < s < 1:
        return (a[0] + t * u[0], a[1] + t * u[1])
    return None


class Ref:
    """Exact drawing: set of points and set of edges (frozenset of two points)."""

    def __init__(self):
        self.points = set()
        self.edges = set()

    def split_at(self, p):
        for e in list(self.edges):
            a, b = tuple(e)
            if on_open(p, a, b):
                self.edges.remove(e)
                self.edges |= {frozenset((a, p)), frozenset((p, b))}

    def add_point(self, p):
        self.split_at(p)
        self.points.add(p)

    def add_line(self, a, b):
        self.add_point(a)
        self.add_point(b)
        if a == b:
            return []
        stops = {p for p in self.points if on_open(p, a, b)}
        for e in list(self.edges):
            c, d = tuple(e)
            x = isec(a, b, c, d)
            if x is not None:
                self.add_point(x)
                stops.add(x)
        chain = [a] + sorted(stops, key=lambda p: (p[0] - a[0]) ** 2 + (p[1] - a[1]) ** 2) + [b]
        for p, q in zip(chain, chain[1:]):
            self.edges.add(frozenset((p, q)))
        return chain

    def sorted_edges(self):
        return sorted(tuple(sorted(e)) for e in self.edges)

    def del_edge(self, k):
        e = self.sorted_edges()[k]
        self.edges.remove(frozenset(e))
        return e

    def del_point(self, k):
        p = sorted(self.points)[k]
        self.points.discard(p)
        self.edges = {e for e in self.edges if p not in e}
        return p

    def canon(self):
        return (tuple(self.sorted_edges()), tuple(sorted(self.points)))

    def min_gap(self):
        """Smallest distance between a vertex and another vertex or a non incident edge."""
        from .planar import seg_dist
        best = 1e9
        pts = sorted(self.points)
        for i, p in enumerate(pts):
            for q in pts[i + 1:]:
                best = min(best, float((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2) ** 0.5)
            for e in self.edges:
                if p not in e:
                    a, b = tuple(e)
                    best = min(best, seg_dist([float(x) for x in p], [float(x) for x in a], [float(x) for x in b]))
        return best


def frac(p):
    return (F(p[0]) * SCALE, F(p[1]) * SCALE)


def raw(p, j):
    return [float(p[0]) + JIT[j][0], float(p[1]) + JIT[j][1]]


def show(pts):
    return sorted(tuple(float(x) for x in p) for p in pts)


class Run:
    def __init__(self, pd=None, eps=1e-6):
        self.pd = pd or ph.fresh()
        self.ref = Ref()
        self.eps = eps

    def close(self, xy, p):
        return abs(float(xy[0]) - float(p[0])) < self.eps and abs(float(xy[1]) - float(p[1])) < self.eps

    def ideal(self, xy):
        """The reference point realised at xy."""
        for p in self.ref.points:
            if self.close(xy, p):
                return p
        require(False, "a vertex at {} where nothing was drawn", tuple(float(x) for x in xy))

    def find_point(self, p):
        for pt in self.pd.points.values():
            if self.close(pt.xy, p):
                return pt
        require(False, "no point at {}", tuple(map(float, p)))

    def find_seg(self, e):
        for s in self.pd.segments.values():
            if {self.ideal(s.vtxs[0].xy), self.ideal(s.vtxs[1].xy)} == set(e):
                return s
        require(False, "no segment {}", show(e))

    def step(self, op, verify=False):
        pd, ref = self.pd, self.ref
        if op[0] == "line":
            a, b = frac(op[1]), frac(op[2])
            ja, jb = (op[3], op[4]) if len(op) > 3 else (0, 0)
            if ja or jb:
                self.eps = 0.008
            res = pd.add_line(raw(a, ja), raw(b, jb))
            chain = ref.add_line(a, b)
            if verify:
                if a == b:
                    require(getattr(res, "id", None) == self.find_point(a).id,
                            "a line of zero length returned {}", res)
                else:
                    got = sorted(show((self.ideal(s.vtxs[0].xy), self.ideal(s.vtxs[1].xy))) for s in res)
                    exp = sorted(show((p, q)) for p, q in zip(chain, chain[1:]))
                    require(got == exp, "returned segments {} instead of {}", got, exp)
                    require(all(pd.segments.get(s.id) is s for s in res), "a returned segment is not in the drawing")
        elif op[0] == "pt":
            p = frac(op[1])
            j = op[2] if len(op) > 2 else 0
            if j:
                self.eps = 0.008
            res = pd.add_point(raw(p, j))
            ref.add_point(p)
            if verify:
                require(self.close(res.xy, p), "add_point at {} returned a point at {}", p, res.xy)
                require(pd.points.get(res.id) is res, "the returned point is not in the drawing")
        elif op[0] == "del":
            e = ref.sorted_edges()[op[1]]
            pd.delete_segment(self.find_seg(e))
            ref.del_edge(op[1])
        elif op[0] == "delp":
            p = sorted(ref.points)[op[1]]
            pd.delete_point(self.find_point(p))
            ref.del_point(op[1])
        else:
            raise AssertionError(op)

    def compare_geometry(self):
        pd, ref = self.pd, self.ref
        segs = sorted(show((self.ideal(s.vtxs[0].xy), self.ideal(s.vtxs[1].xy))) for s in pd.segments.values())
        exp = sorted(show(e) for e in ref.edges)
        require(segs == exp, "segments are {} instead of {}", segs, exp)
        pts = show(self.ideal(p.xy) for p in pd.points.values())
        exp = show(ref.points)
        require(pts == exp, "points are {} instead of {}", pts, exp)


def run(hist, check, verify_all=False):
    """Execute; verify the last operation (return values and geometry); then call check(run)."""
    r = Run()
    for i, op in enumerate(hist):
        last = i == len(hist) - 1
        r.step(op, verify=last or verify_all)
    r.compare_geometry()
    if check:
        check(r)
    return r


def ref_of(hist):
    """The exact reference alone (no implementation involved)."""
    ref = Ref()
    for op in hist:
        if op[0] == "line":
            ref.add_line(frac(op[1]), frac(op[2]))
        elif op[0] == "pt":
            ref.add_point(frac(op[1]))
        elif op[0] == "del":
            ref.del_edge(op[1])
        else:
            ref.del_point(op[1])
    return ref


def grid_lines(n, m, both=True):
    pts = [[x, y] for x in range(n) for y in range(m)]
    res = []
    for i, a in enumerate(pts):
        for j, b in enumerate(pts):
            if i != j and (both or i < j):
                res.append(["line", a, b])
    return res


def moved(ops, scale, dx=0.0, dy=0.0):
    """The same operations on a scaled and displaced grid."""
    return [[op[0]] + [[x[0] * scale + dx, x[1] * scale + dy] if isinstance(x, list) else x for x in op[1:]] for op in ops]


FAR = (1 / 64, -70000.0, -110000.0)        # small features far from the origin, as in geographic coordinates


def scale_lines(both=False):
    """Lines between points whose distances differ by four orders of magnitude."""
    pts = [[x, y] for x in (0.0, 0.0078125, 50.0) for y in (-20.0, 0.0, 0.01171875)]
    return [["line", a, b] for i, a in enumerate(pts) for j, b in enumerate(pts) if i < j or both and i != j]


def first_lines(n):
    """Representatives of lines of the n x n grid up to the symmetries of the square."""
    seen, res = set(), []
    m = n - 1
    maps = [lambda p: (p[0], p[1]), lambda p: (m - p[0], p[1]), lambda p: (p[0], m - p[1]), lambda p: (m - p[0], m - p[1]),
            lambda p: (p[1], p[0]), lambda p: (m - p[1], p[0]), lambda p: (p[1], m - p[0]), lambda p: (m - p[1], m - p[0])]
    for op in grid_lines(n, n):
        imgs = {(f(op[1]), f(op[2])) for f in maps}
        if not imgs & seen:
            seen |= imgs
            res.append(op)
    return res


def search(ctx, name, roots, alphabet, depth, check, deletes=True, max_states=None, gap=0.05, first_canon=True):
    def expand(h, out):
        res = []
        out.extra["expanded"] += 1
        ref = ref_of(h)
        ops = list(alphabet)
        if deletes:
            ops += [["del", k] for k in range(len(ref.edges))]
            ops += [["delp", k] for k, p in enumerate(sorted(ref.points)) if sum(p in e for e in ref.edges) >= 1]
        for op in ops:
            hist = h + [op]
            nref = ref_of(hist)
            if nref.min_gap() < gap:
                out.extra["skipped: features closer than {} tolerances".format(int(gap * 100))] += 1
                continue
            _, err = core.guarded(run, hist, check)
            out.transitions += 1
            out.traces += 1
            if err is not None:
                out.violations.append((len(hist), name + ":" + repr(hist), err, {"space": name, "case": hist}))
            else:
                c = nref.canon()
                out.outcomes.add(core.canon_hash(c)[:6])
                res.append((c, op))
        return res
    ctx.bfs(name, roots, expand, depth, max_states=max_states, chunk=4)
