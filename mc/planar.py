"""
Independent reference for planar straight line subdivisions (no code shared with bgem.polygons).

Given vertices and straight segments of a valid planar drawing it computes the faces by tracing half
edges, the nesting of connected components and the location of points.  Everything else in the polygon
checks is a comparison of the implementation's observable structure with this object.
"""
import bisect
import math


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def seg_dist(p, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    l2 = dx * dx + dy * dy
    t = ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / l2
    t = min(1.0, max(0.0, t))
    return math.hypot(p[0] - a[0] - t * dx, p[1] - a[1] - t * dy)


def proper_cross(a, b, c, d, eps=1e-9):
    """Do the open segments ab and cd intersect transversally?"""
    d1, d2 = cross(a, b, c), cross(a, b, d)
    d3, d4 = cross(c, d, a), cross(c, d, b)
    return ((d1 > eps and d2 < -eps) or (d1 < -eps and d2 > eps)) and \
           ((d3 > eps and d4 < -eps) or (d3 < -eps and d4 > eps))


class Planar:
    def __init__(self, points, segments, free=()):
        """points: {key: (x, y)}; segments: {key: (pa, pb)}; free: isolated points (subset of points)"""
        self.pts = {k: (float(p[0]), float(p[1])) for k, p in points.items()}
        self.segs = dict(segments)
        self.free = set(free)
        self._area, self._box = {}, {}
        self._trace()

    # half edge (s, 0) runs from a to b, (s, 1) from b to a;  a face lies on the left of its half edges
    def _ends(self, h):
        a, b = self.segs[h[0]]
        return (a, b) if h[1] == 0 else (b, a)

    def _angle(self, h):
        a, b = self._ends(h)
        pa, pb = self.pts[a], self.pts[b]
        return math.atan2(pb[1] - pa[1], pb[0] - pa[0])

    def _trace(self):
        out = {}
        for s in self.segs:
            for d in (0, 1):
                h = (s, d)
                out.setdefault(self._ends(h)[0], []).append(h)
        for v in out:
            out[v].sort(key=self._angle)
        self.out = out
        self.next = {}
        for v, hs in out.items():
            n = len(hs)
            for i, h in enumerate(hs):
                # arriving by the twin of h, leave by the previous half edge (clockwise) => face on the left
                self.next[(h[0], 1 - h[1])] = hs[(i - 1) % n]
        self.cycle_of = {}
        self.cycles = []
        for h in self.next:
            if h in self.cycle_of:
                continue
            c = []
            x = h
            while x not in self.cycle_of:
                self.cycle_of[x] = len(self.cycles)
                c.append(x)
                x = self.next[x]
            self.cycles.append(c)
        # components
        comp = {}
        self.comps = []
        for v in out:
            if v in comp:
                continue
            stack, members = [v], []
            comp[v] = len(self.comps)
            while stack:
                x = stack.pop()
                members.append(x)
                for h in out[x]:
                    y = self._ends(h)[1]
                    if y not in comp:
                        comp[y] = len(self.comps)
                        stack.append(y)
            self.comps.append(members)
        self.comp = comp
        # exterior cycle of every component
        self.exterior = []
        for members in self.comps:
            v = min(members, key=lambda k: self.pts[k])
            hs = self.out[v]
            h = max(hs, key=lambda h: self._angle(h) if self._angle(h) > -math.pi / 2 - 1e-12 else -10)
            # all edges leave the leftmost (then lowest) vertex with angles in (-pi/2, pi/2]
            self.exterior.append(self.cycle_of[h])
        ext = set(self.exterior)
        # faces: 'out' and the remaining cycles
        self.faces = ["out"] + [i for i in range(len(self.cycles)) if i not in ext]
        # face containing every component
        self.comp_face = []
        for ci, members in enumerate(self.comps):
            v = self.pts[members[0]]
            self.comp_face.append(self._locate(v, skip=ci))
        self.face_of = {}
        for h, c in self.cycle_of.items():
            if c in ext:
                self.face_of[h] = self.comp_face[self.exterior.index(c)]
            else:
                self.face_of[h] = c
        self.holes = {f: [] for f in self.faces}
        for ci, f in enumerate(self.comp_face):
            self.holes[f].append(self.exterior[ci])
        self.free_face = {p: self._locate(self.pts[p]) for p in self.free}

    def cycle_area(self, c):
        if c in self._area:
            return self._area[c]
        s = 0.0
        for h in self.cycles[c]:
            a, b = self._ends(h)
            pa, pb = self.pts[a], self.pts[b]
            s += pa[0] * pb[1] - pa[1] * pb[0]
        self._area[c] = 0.5 * s
        return 0.5 * s

    def in_cycle(self, p, c):
        """Parity of the cycle around p (edges walked twice cancel)."""
        if c not in self._box:
            vs = [self.pts[self._ends(h)[0]] for h in self.cycles[c]]
            self._box[c] = min(v[0] for v in vs), min(v[1] for v in vs), max(v[0] for v in vs), max(v[1] for v in vs)
        b = self._box[c]
        if p[0] < b[0] or p[0] > b[2] or p[1] < b[1] or p[1] > b[3]:
            return False
        inside = False
        for h in self.cycles[c]:
            a, b = self._ends(h)
            (x0, y0), (x1, y1) = self.pts[a], self.pts[b]
            if (y0 > p[1]) != (y1 > p[1]):
                x = x0 + (p[1] - y0) * (x1 - x0) / (y1 - y0)
                if x > p[0]:
                    inside = not inside
        return inside

    def _locate(self, p, skip=None):
        best, area = "out", math.inf
        for f in self.faces[1:]:
            v = self._ends(self.cycles[f][0])[0]
            if skip is not None and self.comp[v] == skip:
                continue
            ar = abs(self.cycle_area(f))
            if ar < area and self.in_cycle(p, f):
                best, area = f, ar
        return best

    def locate(self, p):
        return self._locate(p)

    def parent_face(self, f):
        if f == "out":
            return None
        v = self._ends(self.cycles[f][0])[0]
        return self.comp_face[self.comp[v]]

    def level(self, f):
        n = 0
        while f != "out":
            f = self.parent_face(f)
            n += 1
        return n

    def face_vertices(self, f):
        return [self._ends(h)[0] for h in self.cycles[f]] if f != "out" else []

    def face_area(self, f):
        a = self.cycle_area(f)
        for c in self.holes[f]:
            a += self.cycle_area(c)
        return a

    def invalid(self, eps=1e-7):
        """None for a valid planar drawing, otherwise a description of the defect."""
        used = {v for ab in self.segs.values() for v in ab}
        keys = sorted(self.pts, key=lambda k: self.pts[k])
        for i, k in enumerate(keys):
            for l in keys[i + 1:]:
                if self.pts[l][0] - self.pts[k][0] > eps:
                    break
                if math.dist(self.pts[k], self.pts[l]) < eps:
                    return "two vertices at {}".format(self.pts[k])
        ends = {}
        for s, (a, b) in self.segs.items():
            if a == b:
                return "degenerate segment {}".format(s)
            e = frozenset((a, b))
            if e in ends:
                return "duplicate segments {} {}".format(s, ends[e])
            ends[e] = s
        # sweep along x: only boxes overlapping in x and y are compared
        byx = sorted(keys, key=lambda k: self.pts[k])
        xs = [self.pts[k][0] for k in byx]
        boxes = []
        for s, (a, b) in self.segs.items():
            pa, pb = self.pts[a], self.pts[b]
            x0, x1 = min(pa[0], pb[0]) - eps, max(pa[0], pb[0]) + eps
            y0, y1 = min(pa[1], pb[1]) - eps, max(pa[1], pb[1]) + eps
            boxes.append((x0, x1, y0, y1, a, b))
            for k in byx[bisect.bisect_left(xs, x0):bisect.bisect_right(xs, x1)]:
                p = self.pts[k]
                if y0 <= p[1] <= y1 and k != a and k != b and seg_dist(p, pa, pb) < eps:
                    return "vertex {} lies inside of segment {}-{}".format(p, pa, pb)
        boxes.sort(key=lambda x: x[0])
        for i, (x0, x1, y0, y1, a, b) in enumerate(boxes):
            for j in range(i + 1, len(boxes)):
                u0, _, v0, v1, c, d = boxes[j]
                if u0 > x1:
                    break
                if v0 <= y1 and v1 >= y0 and len({a, b, c, d}) == 4 and proper_cross(self.pts[a], self.pts[b], self.pts[c], self.pts[d]):
                    return "segments {}-{} and {}-{} cross".format(self.pts[a], self.pts[b], self.pts[c], self.pts[d])
        for k in self.free:
            if k in used:
                return "free point {} has segments".format(k)
        return None


def rotations_equal(a, b):
    a, b = list(a), list(b)
    if len(a) != len(b):
        return False
    if not a:
        return True
    return any(a[i:] + a[:i] == b for i in range(len(a)) if a[i] == b[0])
