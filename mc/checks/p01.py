"""P01: polygons are exactly the faces of the drawn segments after every edit history."""
from .. import core, poly_harness as ph, poly_space as ps, line_space as ls, large
from ..core import require

LEVEL = "model_checking"
ASSUMPTIONS = ["new segments between existing points do not cross existing ones (checked exactly before the operation is "
               "offered); lines may cross and overlap anything",
               "points are separated by far more than the snapping tolerance"]

QUICK = [("tri+in", 99), ("points", 99), ("five", 99), ("nested", 99), ("bowtie", 99), ("triple-full", 5), ("cells-full", 5),
         ("lolly-full", 4), ("nested@far", 99), ("triple@far-full", 4)]
THOROUGH = QUICK[:5] + [("triple", 99), ("cells", 99), ("lolly", 99), ("five-both", 99), ("six", 99), ("six-tri", 99),
                        ("nested-both", 5), ("seven", 6), ("nested@far", 99), ("bowtie@far", 99), ("triple@far", 99), ("lolly@far", 99)]
ASPECTS = ("faces", "links", "free")


def check(sk, hist):
    d = ps.build(sk, hist)
    exp = d.expected_geom(hist)
    got = ph.geom(d.pd)
    require(got == exp, "drawn segments and free points are {} instead of {}", got, exp)
    ph.check_subdivision(d.pd, aspects=ASPECTS)
    return (exp, sorted(d.sk.abstract(hist)[1].values()) if sk.both else None)


def search(ctx, name, depth=99, max_states=None, check=check):
    base = name.split("-full")[0]
    sk = ps.skeletons()[base]
    start = list(sk.start)
    if name.endswith("-full"):
        start += [["seg", i, j] for i, j in sk.edges]

    def expand(h, out):
        res = []
        out.extra["expanded"] += 1
        for op in sk.enabled(h):
            hist = h + [op]
            c, err = core.guarded(check, sk, hist)
            out.transitions += 1
            out.traces += 1
            if err is not None:
                out.violations.append((len(hist), base + ":" + repr(hist), err, {"space": base, "case": hist}))
            else:
                out.outcomes.add(core.canon_hash(c[0])[:6])
                res.append((c, op))
        return res
    ctx.bfs(name, [start], expand, depth, max_states=max_states)


def lines_check(r):
    ph.check_subdivision(r.pd, aspects=ASPECTS)


def big(case, out):
    large.walk(case, out, lines_check)


def explore(ctx):
    for name, depth in ctx.pick(QUICK, THOROUGH):
        search(ctx, name, depth)
    ls.search(ctx, "lines2x3", [[]], ls.grid_lines(2, 3, both=False) + [["pt", [0.5, 0.5]], ["pt", [0, 1.5]]],
              ctx.pick(4, 5), lines_check)
    ls.search(ctx, "lines3x3", [[op] for op in ls.first_lines(3)], ls.grid_lines(3, 3, both=not ctx.quick),
              2, lines_check)
    ls.search(ctx, "lines3x3 far", [ls.moved([op], *ls.FAR) for op in ls.first_lines(3)], ls.moved(ls.grid_lines(3, 3, both=not ctx.quick), *ls.FAR),
              2, lines_check)
    ls.search(ctx, "lines-scales", [[]], ls.scale_lines(), ctx.pick(3, 4), lines_check)
    ctx.each("large", large.cases(ctx), big, chunk=1)


def replay(case):
    if case["space"] == "large":
        big(case["case"], core.Out())
    elif case["space"].startswith("lines"):
        ls.run(case["case"], lines_check)
    else:
        check(ps.skeletons()[case["space"]], case["case"])
    return []
