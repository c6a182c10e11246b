"""P09: moved points stay what they are at their new position."""
import math

import numpy as np

from .. import core, poly_harness as ph, poly_space as ps, planar
from ..core import require
from . import p08

LEVEL = "model_checking"
ASSUMPTIONS = ["points are moved only where nothing is in the way (clearance at least 0.03, as judged by the reference of P08)"]


def moved_fresh(name, pos):
    """The same drawing made from scratch at the new positions."""
    pts, ops = p08.DRAWINGS[name]
    d = ps.Driver(ps.Skeleton(name, pos, edges=[]))
    for i in range(len(pts)):
        d.apply(["pt", i])
    for op in ops:
        d.apply(op)
    return d


def verify(drv, name, pos, out):
    pd = drv.pd
    for i, p in drv.p.items():
        require(p.id in pd.points and math.dist(p.xy, pos[i]) < 1e-9, "point {} is at {} instead of {}", i, p.xy, pos[i])
    ref = ph.planar_of(pd)
    samples = [(x + 0.41, y + 0.23) for x in range(-3, 10, 2) for y in range(-3, 9, 2)]
    ph.check_subdivision(pd, ref, samples=samples)
    twin = moved_fresh(name, pos)
    require(ph.geom(pd) == ph.geom(twin.pd), "moved drawing differs from the drawing at new positions")
    # attributes follow
    for i, p in drv.p.items():
        require(p.attr == "p%d" % i, "attribute of point {} is {}", i, p.attr)
    # every point is found at its new place
    for i, p in drv.p.items():
        for dx, dy in ((0, 0), (0.004, -0.003)):
            got = pd.add_point((pos[i][0] + dx, pos[i][1] + dy))
            require(got is p, "point {} moved to {} is not found there", i, pos[i])
    # lines over the drawing see segments and points at the new places
    out.transitions += 1


LINES = [((-9.3, 1.37), (15.1, 2.11)), ((2.47, -9.1), (3.33, 16.2)), ((-8.1, -7.3), (14.2, 13.1))]


def line_check(case):
    """After the move draw a line; same result as on the drawing created at the new positions."""
    name, moves, line = case
    drv, pos = run(name, moves)
    twin = moved_fresh(name, pos)
    a, b = line
    # do not ask where snapping decides
    ref = ph.planar_of(twin.pd)
    if any(0.0 <= planar.seg_dist(p, a, b) < 0.03 for p in ref.pts.values()):
        return False
    drv.pd.add_line(a, b)
    twin.pd.add_line(a, b)
    require(ph.geom(drv.pd) == ph.geom(twin.pd), "a line drawn over the moved drawing {} is cut differently than over "
            "the same drawing made at the new positions", name)
    ph.check_subdivision(drv.pd)
    return True


def run(name, moves):
    drv = p08.build(name)
    for i, p in drv.p.items():
        drv.pd.set_attr(p, "p%d" % i)
    pos = [tuple(map(float, p)) for p in p08.DRAWINGS[name][0]]
    for moving, d in moves:
        for poly in drv.pd.polygons.values():
            poly.contains_point(np.array([2.0, 1.0]))
        drv.pd.move_points([drv.p[i] for i in moving], np.array(d))
        for i in moving:
            pos[i] = (pos[i][0] + d[0], pos[i][1] + d[1])
    return drv, pos


def allowed(name, moves):
    pos = {i: tuple(map(float, p)) for i, p in enumerate(p08.DRAWINGS[name][0])}
    segs = [tuple(op[1:3]) for op in p08.DRAWINGS[name][1]]
    for moving, d in moves:
        if p08.penetration(pos, segs, set(moving), d) > -p08.MARGIN:
            return False
        for i in moving:
            pos[i] = (pos[i][0] + d[0], pos[i][1] + d[1])
    # points must stay distinct
    v = list(pos.values())
    return all(math.dist(v[i], v[j]) > 0.05 for i in range(len(v)) for j in range(i))


def evaluate(case, out):
    name, moves = case[:2]
    if not allowed(name, moves):
        out.states += 1
        return
    out.extra["moves"] += 1
    drv, pos = run(name, moves)
    verify(drv, name, pos, out)
    out.states += 1
    out.outcomes.add(core.canon_hash(ph.geom(drv.pd))[:6])
    for line in LINES:
        out.extra["lines"] += bool(line_check([name, moves, line]))


def explore(ctx):
    cases = []
    for name, moving in p08.cases(ctx):
        ds = list(p08.displacements(True))
        ds = ds[::3] + ds[-7:] if ctx.quick else ds
        for d in ds:
            if allowed(name, [[moving, d]]):
                cases.append([name, [[moving, d]]])
    n = len(cases)
    large = [[name, [[moving, tuple(d)]]] for name, moving, d in p08.large_cases(ctx)]
    ctx.each("move", [c for c in large if allowed(*c)], evaluate, chunk=2)
    # two moves one after another
    second = [(0.7, 0.45), (-0.8, 0.3), (0.1, -1.1), (-2.3, -1.9)]
    for name, moves in list(cases)[::ctx.pick(20, 1)]:
        for m in ([0], [1, 2], list(range(len(p08.DRAWINGS[name][0])))):
            for d in second:
                if allowed(name, moves + [[m, d]]):
                    cases.append([name, moves + [[m, d]]])
    ctx.bound("{} single moves, {} pairs of moves".format(n, len(cases) - n))
    ctx.each("move", cases, evaluate, chunk=16)


def replay(case):
    out = core.Out()
    evaluate([case["case"][0], [[m, tuple(d)] for m, d in case["case"][1]]], out)
