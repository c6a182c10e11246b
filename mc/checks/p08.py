"""P08/P09: checking and performing displacements of points."""
import itertools
import math

import numpy as np

from .. import core, poly_harness as ph, poly_space as ps
from ..core import require
from ..planar import seg_dist, cross

LEVEL = "model_checking"
ASSUMPTIONS = ["displacements whose sweep comes within 0.03 of a vertex or segment without penetrating it by 0.03 are not judged"]
MARGIN = 0.03


def ring(*ids):
    return [["seg", a, b] for a, b in zip(ids, ids[1:] + ids[:1])]


def path(*ids):
    return [["seg", a, b] for a, b in zip(ids, ids[1:])]


# name -> (points, operations)
DRAWINGS = {
    "free": ([(0, 0), (3, 1), (1, 3)], []),
    "segment": ([(0, 0), (4, 0.3), (2, 2), (2.2, -2)], path(0, 1)),
    "tri": ([(0, 0), (6, 0), (3, 5), (2.7, 2)], ring(0, 1, 2)),
    "tri-dendrite": ([(0, 0), (6, 0), (3, 5), (2.7, 2), (3.1, 1)], ring(0, 1, 2) + path(0, 3) + path(3, 4)),
    "two cells": ([(0, 0), (6, 0), (6, 5), (0, 5), (2.5, 2.2)], ring(0, 1, 2, 3) + path(0, 4, 2)),
    "hub": ([(0, 0), (6, 0), (6, 5), (0, 5), (2.5, 2.2)], ring(0, 1, 2, 3) + path(0, 4, 2) + path(1, 4, 3)),
    "hole": ([(0, 0), (8, 0), (8, 7), (0, 7), (3, 2.2), (5, 2.4), (4, 4.1)], ring(0, 1, 2, 3) + ring(4, 5, 6)),
    "hole+in": ([(0, 0), (8, 0), (8, 7), (0, 7), (2.1, 1.7), (6, 1.9), (4, 5.3), (4, 2.6), (4.3, 3.4)],
                ring(0, 1, 2, 3) + ring(4, 5, 6) + path(7, 8)),
    "beside": ([(0, 0), (3, 0.2), (1.4, 2.3), (4, 1), (4.7, 1.2), (4.3, 1.8)], ring(0, 1, 2) + ring(3, 4, 5)),
    "u": ([(0, 0), (6, 0), (6, 5), (4, 5), (4.1, 2), (2, 2.1), (2, 5), (0, 5), (3, 4)], ring(0, 1, 2, 3, 4, 5, 6, 7)),
    "bowtie": ([(0, 0), (0.1, 4), (3, 2), (6, 0.2), (6.1, 4)], ring(0, 1, 2) + ring(2, 3, 4)),
    "chain": ([(0, 0), (2, 0.1), (4, 1), (3, 3), (1, 3)], path(0, 1, 2, 3, 4)),
}


def jit(i, j):
    """Small deterministic shift, no three points are collinear."""
    return round(0.11 * math.sin(3.1 * i + 1.7 * j + 0.5), 6), round(0.11 * math.cos(2.3 * i - 1.1 * j), 6)


def grid(n):
    k = lambda i, j: n * j + i
    pts = [(3 * i + jit(i, j)[0], 3 * j + jit(i, j)[1]) for j in range(n) for i in range(n)]
    ops = [["seg", k(i, j), k(i + 1, j)] for j in range(n) for i in range(n - 1)] + [["seg", k(i, j), k(i, j + 1)] for j in range(n - 1) for i in range(n)]
    mid = k(n // 2, n // 2)
    sub = [[mid], [0], [mid, mid + 1], [k(i, 1) for i in range(n)], [k(i, j) for i in (1, 2) for j in (1, 2)],
           [k(i, j) for i in range(1, n - 1) for j in range(1, n - 1)], [k(i, j) for i in (0, n - 1) for j in range(n)], list(range(n * n))]
    return pts, ops, sub


def cells(n):
    """Squares with a triangle and a free point in each."""
    pts, ops = [], []
    for i in range(n):
        for j in range(n):
            x, y, o = 9 * i + jit(i, j)[0], 9 * j + jit(i, j)[1], len(pts)
            pts += [(x, y), (x + 7.1, y + 0.1), (x + 7, y + 7), (x - 0.1, y + 7.2), (x + 2, y + 2.1), (x + 4, y + 2.3), (x + 3.1, y + 4), (x + 5.5, y + 5.2)]
            ops += ring(o, o + 1, o + 2, o + 3) + ring(o + 4, o + 5, o + 6)
    m = 8 * (n * n // 2)
    sub = [[m + 7], [m + 4, m + 5, m + 6], [m + 4], [m, m + 1, m + 2, m + 3], list(range(m, m + 8)), list(range(0, len(pts), 8)),
           [8 * c + 7 for c in range(n * n)], [8 * c + i for c in range(n * n) for i in (4, 5, 6)], list(range(8)), list(range(len(pts)))]
    return pts, ops, sub


def wave(n):
    pts = [(1.5 * i, round(2 * math.sin(1.3 * i), 6)) for i in range(n)] + [(1.5 * i + 0.4, round(2 * math.sin(1.3 * i + 0.3) + 4, 6)) for i in range(n)]
    ops = path(*range(n)) + path(*range(n, 2 * n)) + [["seg", 0, n], ["seg", n - 1, 2 * n - 1]]
    return pts, ops, [[n // 2], list(range(n)), list(range(n, 2 * n)), list(range(n // 3, 2 * n // 3)), [0, n], list(range(0, 2 * n, 2))]


LARGE = {"grid7": grid(7), "grid10": grid(10), "cells3": cells(3), "cells4": cells(4), "wave30": wave(30), "wave60": wave(60)}
DRAWINGS.update({n: v[:2] for n, v in LARGE.items()})
SK = {n: ps.Skeleton(n, pts, edges=[]) for n, (pts, ops) in DRAWINGS.items()}


def build(name):
    pts, ops = DRAWINGS[name]
    d = ps.Driver(SK[name])
    for i in range(len(pts)):
        d.apply(["pt", i])
    for op in ops:
        d.apply(op)
    return d


def hull_depth(poly, o):
    """Convex corners: > 0 depth of o inside, < 0 minus distance to the polygon."""
    n = len(poly)
    area = sum(poly[i][0] * poly[(i + 1) % n][1] - poly[(i + 1) % n][0] * poly[i][1] for i in range(n)) / 2
    dist = min(seg_dist(o, poly[i], poly[(i + 1) % n]) if math.dist(poly[i], poly[(i + 1) % n]) > 1e-12
               else math.dist(o, poly[i]) for i in range(n))
    if abs(area) < 1e-9:
        return -dist
    sgn = 1 if area > 0 else -1
    inside = all(sgn * cross(poly[i], poly[(i + 1) % n], o) >= 0 for i in range(n)
                 if math.dist(poly[i], poly[(i + 1) % n]) > 1e-12)
    return dist if inside else -dist


def penetration(pts, segs, moving, d):
    """
    The deepest contact of a point with a segment not containing it during the motion: > 0 the point
    passes through the segment, < 0 minus the smallest distance during the motion.
    """
    deep = -1e9
    sub = lambda p, v: (p[0] - v[0], p[1] - v[1])
    add = lambda p, v: (p[0] + v[0], p[1] + v[1])
    ends = {v for s in segs for v in s}
    for x in pts:
        for a, b in segs:
            if x in (a, b):
                continue
            # frame of the point x
            if (a in moving) == (b in moving) == (x in moving):
                continue
            va = d if a in moving else (0, 0)
            vb = d if b in moving else (0, 0)
            vx = d if x in moving else (0, 0)
            a0, b0 = pts[a], pts[b]
            a1, b1 = add(sub(a0, vx), va), add(sub(b0, vx), vb)
            if a1 == a0 and b1 == b0:
                continue
            corners = [a0, a1, b1, b0] if (a1 != a0 and b1 != b0) else ([a0, a1, b0] if a1 != a0 else [a0, b1, b0])
            deep = max(deep, hull_depth(corners, pts[x]))
    return deep


def cases(ctx):
    res = []
    for name, (pts, ops) in DRAWINGS.items():
        if name in LARGE:
            continue
        ids = range(len(pts))
        subsets = [c for k in (1, 2, 3) for c in itertools.combinations(ids, k)]
        # whole components too
        subsets += [tuple(ids), tuple(i for i in ids if i >= 4), tuple(i for i in ids if i < 4)]
        subsets = [s for s in dict.fromkeys(subsets) if s]
        if ctx.quick:
            subsets = [s for s in subsets if len(s) != 3 or len(pts) <= 5] + [s for s in subsets if len(s) == 3][::5]
        for s in dict.fromkeys(subsets):
            res.append([name, list(s)])
    return res


def large_cases(ctx):
    names = [n for n in LARGE if not ctx.quick or n in ("grid7", "cells3", "wave30")]
    return [[n, s, list(d)] for n in names for s in LARGE[n][2] for d in list(displacements(True))[::ctx.pick(5, 2)]]


def displacements(tier):
    step = (0.35, 0.9, 1.7, 3.1, 5.3, 8.9)
    dirs = 12 if tier else 20
    for r in step:
        for k in range(dirs):
            a = 2 * math.pi * k / dirs + 0.07
            yield (round(r * math.cos(a), 6), round(r * math.sin(a), 6))
    for v in ((1, 0), (0, 1), (-1, 0), (0, -1), (2, 2), (-3, 1), (0.02, 0.01)):
        yield v


def setup(name, moving):
    drv = build(name)
    pts = {drv.p[i].id: DRAWINGS[name][0][i] for i in drv.p}
    segs = [(s.vtxs[0].id, s.vtxs[1].id) for s in drv.pd.segments.values()]
    mov = [drv.p[i] for i in moving]
    return drv, pts, segs, mov, {p.id for p in mov}


def evaluate(case, out):
    name, moving = case[:2]
    drv, pts, segs, mov, ids = setup(name, moving)
    before = ph.oriented_geom(drv.pd)
    for d in ([tuple(case[2])] if len(case) > 2 else displacements(out)):
        deep = penetration(pts, segs, ids, d)
        out.states += 1
        if abs(deep) < MARGIN:
            out.extra["not judged"] += 1
            continue
        out.transitions += 1
        got, err = core.guarded(drv.pd.check_displacment, mov, np.array(d))
        msg = err
        if err is None:
            out.outcomes.add(bool(got))
            out.extra["clear" if deep < 0 else "collision"] += 1
            if bool(got) != (deep < 0):
                msg = "moving points {} of drawing {} by {}: {} but check_displacment returned {}".format(
                    moving, name, d, "nothing is in the way (clearance %.3g)" % -deep if deep < 0 else
                    "points pass through segments (depth %.3g)" % deep, got)
            elif ph.oriented_geom(drv.pd) != before:
                msg = "check_displacment changed the drawing"
            else:
                kind, polys, _ = drv.pd.get_last_polygon_changes()
                exp = {q.id for p in mov for s, _ in p.segments() for q in s.polygons()}
                if set(polys) != exp or len(polys) != len(exp):
                    msg = "polygons with changed shape are reported as {} instead of {}".format(sorted(polys), sorted(exp))
        out.traces += 1
        if msg:
            out.violations.append((len(moving), "{} {} {}".format(name, moving, d), msg,
                                   {"space": "check", "case": [name, list(moving), list(d)]}))


def explore(ctx):
    core.CASE_TIMEOUT = 60
    ctx.each("check", cases(ctx), evaluate, chunk=2, trace=False)
    ctx.each("check", large_cases(ctx), evaluate, chunk=4, trace=False)


def replay(case):
    out = core.Out()
    evaluate(case["case"], out)
    return [v[2] for v in out.violations]
