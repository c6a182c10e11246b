"""P07: nesting and point containment queries agree with geometry."""
from .. import core, poly_harness as ph, poly_space as ps, line_space as ls, large
from ..core import require
from . import p01

LEVEL = "model_checking"
ASSUMPTIONS = ["query points are at least 0.02 from every segment", "planar drawing as in P01"]
SAMPLES = [(x + 0.37, y + 0.29) for x in range(-1, 14, 2) for y in range(-1, 12, 2)]
SPACES = [("nested", 99), ("bowtie-full", 3), ("triple-full", 4), ("cells-full", 3), ("lolly-full", 3), ("tri+in", 99),
          ("nested@far", 99), ("triple@far-full", 3)]


def touch(pd, xy):
    """Ask all queries; answers given earlier must not be remembered wrongly."""
    for i, p in pd.polygons.items():
        p.contains_point(xy)
        p.depth()
        p.vertices()
        pd.get_childs(i)


def check(sk, hist):
    d = ps.Driver(sk)
    for op in hist:
        d.apply(op)
        touch(d.pd, sk.points[0])
    exp = d.expected_geom(hist)
    # also query exactly at the height of vertices (ray casting corner cases)
    k = 0.125 if sk.name.endswith("@far") else 1
    dx, dy = ps.FAR if k < 1 else (0, 0)
    samples = [(x * k + dx, y * k + dy) for x, y in SAMPLES] + [(x + s * 0.55 * k, y) for x, y in sk.points for s in (1, -1)]
    ph.check_subdivision(d.pd, aspects=("nesting", "contains"), samples=samples, internal=False)
    # the whole drawing is moved
    mx, my = (7.25, -3.5)
    d.pd.move_points(list(d.pd.points.values()), (mx, my))
    ph.check_subdivision(d.pd, aspects=("nesting", "contains"), internal=False,
                         samples=samples[::5] + [(x + mx, y + my) for x, y in samples[::2]])
    return (exp, sorted(d.sk.abstract(hist)[1].values()) if sk.both else None)


LSAMPLES = [(2.5 * x + 0.31, 2.5 * y + 0.77) for x in range(-1, 9) for y in range(-1, 9)] + \
           [(5 * x + 0.7, 5 * y) for x in range(-1, 5) for y in range(0, 5)]


def lines_check(r):
    ph.check_subdivision(r.pd, aspects=("nesting", "contains"), samples=LSAMPLES, internal=False)


def big(case, out):
    sm = large.samples(case)
    large.walk(case, out, lambda r: ph.check_subdivision(r.pd, aspects=("nesting", "contains"), samples=sm, internal=False))


def explore(ctx):
    for name, depth in SPACES:
        p01.search(ctx, name, depth if ctx.quick else depth + 2, check=check)
    ls.search(ctx, "lines3x3", [[op] for op in ls.first_lines(3)], ls.grid_lines(3, 3, both=False), ctx.pick(1, 2),
              lines_check)
    ctx.each("large", large.cases(ctx), big, chunk=1)


def replay(case):
    if case["space"] == "large":
        big(case["case"], core.Out())
    elif case["space"].startswith("lines"):
        ls.run(case["case"], lines_check)
    else:
        check(ps.skeletons()[case["space"]], case["case"])
    return []
