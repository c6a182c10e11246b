"""
Skeleton spaces: a fixed finite set of points and candidate edges; the reachable states of the editor are all
planar subsets of the candidate edges.  Operations (JSON):
  ["seg", i, j]    new segment from point i to point j (orientation matters)
  ["del", i, j]    delete the segment between i and j
  ["delp", i]      delete point i with all its segments
  ["pt", i]        add point i (no snapping can occur: positions are far apart)
"""
import copy
import itertools

from . import core, poly_harness as ph
from .core import require
from .planar import proper_cross, seg_dist, cross


class Skeleton:
    def __init__(self, name, points, edges=None, both=False, start=None, delp=True):
        self.name = name
        self.points = [tuple(map(float, p)) for p in points]
        n = len(points)
        if edges is None:
            edges = [(i, j) for i in range(n) for j in range(i + 1, n)]
        good = []
        for (i, j) in edges:
            if all(k in (i, j) or seg_dist(self.points[k], self.points[i], self.points[j]) > 0.05 for k in range(n)):
                good.append((i, j))
        self.edges = good
        self.conf = {e: [f for f in good if len({*e, *f}) == 4 and
                         proper_cross(self.points[e[0]], self.points[e[1]], self.points[f[0]], self.points[f[1]])]
                     for e in good}
        self.both = both
        self.delp = delp
        self.start = start or [["pt", i] for i in range(n)]

    # ---- abstract state: (present points, oriented edges)
    def abstract(self, hist):
        pts, edges = set(), {}
        for op in hist:
            if op[0] == "pt":
                pts.add(op[1])
            elif op[0] == "seg":
                edges[frozenset(op[1:3])] = (op[1], op[2])
            elif op[0] == "del":
                edges.pop(frozenset(op[1:3]), None)
            elif op[0] == "delp":
                pts.discard(op[1])
                for e in [e for e in edges if op[1] in e]:
                    del edges[e]
        return pts, edges

    def enabled(self, hist):
        pts, edges = self.abstract(hist)
        ops = []
        for e in self.edges:
            k = frozenset(e)
            if k in edges:
                i, j = edges[k]
                ops.append(["del", i, j])
            elif e[0] in pts and e[1] in pts and not any(frozenset(f) in edges for f in self.conf[e]):
                ops.append(["seg", e[0], e[1]])
                if self.both:
                    ops.append(["seg", e[1], e[0]])
        for i in range(len(self.points)):
            if i not in pts:
                if not any(seg_dist(self.points[i], self.points[a], self.points[b]) < 0.05 for a, b in edges.values()):
                    ops.append(["pt", i])
            elif self.delp and any(i in e for e in edges):
                ops.append(["delp", i])
        return ops


class Driver:
    """Executes skeleton operations on a real PolygonDecomposition."""

    def __init__(self, sk, pd=None):
        self.sk = sk
        self.pd = pd or ph.fresh()
        self.p = {}

    def find_seg(self, i, j):
        a, b = self.p[i], self.p[j]
        for s in self.pd.segments.values():
            if {s.vtxs[0].id, s.vtxs[1].id} == {a.id, b.id}:
                return s
        require(False, "segment {}-{} is missing", i, j)

    def apply(self, op):
        k = op[0]
        if k == "pt":
            n = len(self.pd.points)
            self.p[op[1]] = self.pd.add_point(self.sk.points[op[1]])
            require(len(self.pd.points) == n + 1, "adding a point far from everything changed the number of points "
                    "from {} to {}", n, len(self.pd.points))
        elif k == "seg":
            s = self.pd.new_segment(self.p[op[1]], self.p[op[2]])
            require({s.vtxs[0].id, s.vtxs[1].id} == {self.p[op[1]].id, self.p[op[2]].id},
                    "returned segment has other end points")
            return s
        elif k == "del":
            self.pd.delete_segment(self.find_seg(op[1], op[2]))
        elif k == "delp":
            self.pd.delete_point(self.p.pop(op[1]))
        else:
            raise AssertionError(op)

    def expected_geom(self, hist):
        pts, edges = self.sk.abstract(hist)
        r = lambda i: (round(self.sk.points[i][0], 6) + 0.0, round(self.sk.points[i][1], 6) + 0.0)
        segs = sorted(tuple(sorted((r(i), r(j)))) for i, j in edges.values())
        used = {x for s in segs for x in s}
        free = sorted(r(i) for i in pts if r(i) not in used)
        return tuple(segs), tuple(free)


def build(sk, hist):
    d = Driver(sk)
    for op in hist:
        d.apply(op)
    return d


# --------------------------------------------------------------------------- skeletons
FAR = (-700000.0, -1100000.0)
SQ = [(0, 0), (4, 0), (4, 4), (0, 4)]


def skeletons():
    S = {}
    # complete edit graphs over few points
    S["tri+in"] = Skeleton("tri+in", [(0, 0), (6, 0), (3, 5), (3, 2)], both=True)
    S["five"] = Skeleton("five", [(0, 0), (6, 0), (6, 5), (0, 5), (2.5, 2)])
    S["five-both"] = Skeleton("five-both", [(0, 0), (6, 0), (6, 5), (0, 5), (2.5, 2)], both=True, delp=False)
    S["six"] = Skeleton("six", [(0, 0), (7, 0), (7, 6), (0, 6), (2, 2), (5, 3)], delp=False)
    S["six-tri"] = Skeleton("six-tri", [(0, 0), (9, 0), (4, 9), (3, 1), (6, 2), (4, 4)], delp=False)
    # nested components: outer triangle, inner triangle, innermost segment, connections
    out3, in3, core2 = [(0, 0), (12, 0), (5, 12)], [(3, 2), (8, 2), (5, 6)], [(5, 3), (6, 3.5)]
    S["nested"] = Skeleton("nested", out3 + in3 + core2,
                           edges=[(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3), (6, 7), (0, 3), (2, 5), (3, 6)],
                           delp=False)
    S["nested-both"] = Skeleton("nested-both", out3 + in3 + core2,
                                edges=[(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3), (6, 7), (0, 3), (3, 6)],
                                both=True, delp=False)
    # outer triangle containing an inner triangle containing a triangle, one bridge each
    S["triple"] = Skeleton("triple", [(0, 0), (20, 0), (8, 20), (4, 3), (13, 3), (8, 12), (7, 5), (10, 5), (8, 8)],
                           edges=[(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3), (6, 7), (7, 8), (8, 6), (0, 3), (3, 6),
                                  (1, 4)], delp=False)
    # two triangles touching in a vertex inside of a square, bridges to the square
    S["bowtie"] = Skeleton("bowtie", [(0, 0), (12, 0), (12, 12), (0, 12), (2, 3), (2, 8), (6, 6), (10, 3), (10, 8)],
                           edges=[(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 4), (6, 7), (7, 8), (8, 6), (0, 4),
                                  (2, 8)], delp=False)
    # square with a ring divided in two cells, a hole inside of one cell
    S["cells"] = Skeleton("cells", [(0, 0), (6, 0), (12, 0), (12, 8), (6, 8), (0, 8), (8, 3), (10, 3), (9, 5), (9, 3.7)],
                          edges=[(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 0), (1, 4), (6, 7), (7, 8), (8, 6), (4, 8),
                                 (8, 9)], delp=False)
    # dendrites with bubbles at their ends
    S["lolly"] = Skeleton("lolly", [(0, 0), (14, 0), (14, 10), (0, 10), (3, 5), (5, 3), (5, 7), (4.3, 5), (9, 5), (11, 3),
                                    (11, 7)],
                          edges=[(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (4, 5), (5, 6), (6, 4), (4, 7), (5, 8), (8, 9),
                                 (9, 10), (10, 8)], delp=False)
    S["seven"] = Skeleton("seven", [(0, 0), (10, 0), (10, 8), (0, 8), (2, 2), (7, 3), (4, 5)], delp=False)
    # deletion and re-creation of points
    S["points"] = Skeleton("points", [(0, 0), (6, 0), (3, 5), (3, 2)], both=False, delp=True, start=[["pt", 0]])
    # the same in small features far from the origin, as in geographic coordinates
    for name, sk in list(S.items()):
        far = copy.copy(sk)
        far.name = name + "@far"
        far.points = [(p[0] * 0.125 + FAR[0], p[1] * 0.125 + FAR[1]) for p in sk.points]
        S[far.name] = far
    return S
