"""P02: inserting lines and points draws exactly their union."""
from .. import core, line_space as ls, large

LEVEL = "model_checking"
ASSUMPTIONS = ["all vertices and intersections are separated by more than the snapping tolerance",
               "displaced end points are within a tenth of the tolerance of the ideal ones"]


def big(case, out):
    large.walk(case, out, None, every=5)


def explore(ctx):
    lines3 = ls.grid_lines(3, 3)
    roots = [[op] for op in ls.first_lines(3)]
    half = [["pt", [x / 2, y / 2]] for x in range(0, 5) for y in range(0, 5)]
    # every line after every line after every line (first one up to symmetry), 3x3 grid, deletions in between
    ls.search(ctx, "grid3", roots, lines3 + half + [["line", [1, 1], [1, 1]]], ctx.pick(2, 3), None)
    # longer histories on a 2x3 grid
    ls.search(ctx, "grid2x3", [[]], ls.grid_lines(2, 3, both=False), ctx.pick(4, 5), None)
    # features of very different size; small features far from the origin
    ls.search(ctx, "scales", [[]], ls.scale_lines(both=True), ctx.pick(2, 3), None)
    ls.search(ctx, "scales, deeper", [[]], ls.scale_lines(), ctx.pick(3, 4), None)
    ls.search(ctx, "far", [ls.moved([op], *ls.FAR) for op in ls.first_lines(3)], ls.moved(lines3 + half, *ls.FAR), ctx.pick(2, 3), None)
    # inexact input
    jl = [op + [j, k] for op in ls.grid_lines(3, 3, both=False) for j, k in ((1, 2), (2, 0))]
    jp = [["pt", [x / 2, y / 2], 1 + (x + y) % 2] for x in range(0, 5) for y in range(0, 5)]
    ls.search(ctx, "jitter", [[]], jl + jp, ctx.pick(2, 3), None)
    ctx.each("large", large.cases(ctx), big, chunk=1)


def replay(case):
    if case["space"] == "large":
        big(case["case"], core.Out())
        return []
    ls.run(case["case"], None)
    return []
