"""
Histories building and taking apart large drawings (hundreds of points, segments and polygons), executed by line_space.Run
against its exact reference.  A case is [family, size, order]; the history is checked at several moments.
"""
from . import line_space as ls

FAMILIES = ("grid", "boxes", "nest", "comb", "fan", "path")
ORDERS = ("fwd", "rev", "mix")


def order(ops, how):
    n = len(ops)
    if how == "fwd":
        return ops
    if how == "rev":
        return ops[::-1]
    k = next(k for k in range(n // 2 + 1, 2 * n + 3) if all(k % p or n % p for p in range(2, n + 1)))
    return [ops[i * k % n] for i in range(n)]


def box(x0, y0, x1, y1):
    p = [[x0, y0], [x1, y0], [x1, y1], [x0, y1]]
    return [["line", a, b] for a, b in zip(p, p[1:] + p[:1])]


def phases(family, n, how):
    """Additions, then further additions, then number of deletions (stride)."""
    if family == "grid":
        a = [["line", [-1, j], [n, j]] for j in range(n)] + [["line", [i, -1], [i, n]] for i in range(n)]
        b = [["pt", [i + 0.5, i + 0.25]] for i in range(0, n - 1, 2)] + [["line", [0, 0], [n - 1, n - 1]]]
    elif family == "boxes":
        w = max(1, int(n ** 0.5))
        a = []
        for k in range(n):
            x, y = 3 * (k % w), 3 * (k // w)
            a += box(x, y, x + 2, y + 2) + [["pt", [x + 1, y + 1]]]
        b = [["line", [3 * (k % w) + 2, 3 * (k // w) + 1], [3 * (k % w) + 3, 3 * (k // w) + 1]] for k in range(n - 1) if k % w != w - 1]
        b += [["line", [-1, -1], [3 * w, -1]], ["line", [3 * w, -1], [3 * w, 3 * w + 9]], ["line", [3 * w, 3 * w + 9], [-1, 3 * w + 9]],
              ["line", [-1, 3 * w + 9], [-1, -1]]]
    elif family == "nest":
        a = []
        for k in range(n):
            a += box(-k - 1, -k - 1, k + 1, k + 1) + [["pt", [k + 1.5, 0.5]]]
        b = [["line", [k, 0], [k + 1, 0]] for k in range(1, n, 3)] + [["line", [-n - 1, -n - 2], [n + 2, n + 1]]]
    elif family == "comb":
        a = [["line", [i, 0], [i, 4]] for i in range(n)]
        b = [["line", [-1, 1], [n, 1]], ["line", [n, 3], [-1, 3]]]
    elif family == "fan":
        m = max(1, n // 8)
        ring = [[i, -m] for i in range(-m, m)] + [[m, i] for i in range(-m, m)] + [[-i, m] for i in range(-m, m)] + [[-m, -i] for i in range(-m, m)]
        ring = [[2 * x, 2 * y] for x, y in ring]
        a = [["line", [0, 0] if k % 2 else p, p if k % 2 else [0, 0]] for k, p in enumerate(ring)]
        b = [["line", p, q] for p, q in zip(ring, ring[1:] + ring[:1])]
    else:
        z = [[i, (i * 7) % 5] for i in range(n)]
        a = [["line", p, q] for p, q in zip(z, z[1:])]
        b = [["line", z[-1], [n, 8]], ["line", [n, 8], [-1, 8]], ["line", [-1, 8], z[0]], ["pt", [1.5, 7]]]
    return order(a, how), order(b, how)


STRIDE = {"fwd": 0.0, "rev": 1.0, "mix": 0.37}


def history(case):
    """[(op, checkpoint)]"""
    family, n, how = case
    a, b = phases(family, n, how)
    ops = [(op, i % max(1, len(a) // 3) == max(1, len(a) // 3) - 1) for i, op in enumerate(a)]
    ops += [(op, i in (0, len(b) - 1) or i % 16 == 15) for i, op in enumerate(b)]
    ref = ls.ref_of([op for op, _ in ops])
    dele = []
    i = 0
    while ref.edges and i < 2 * n:
        if i % 5 == 4:
            pts = sorted(p for p in ref.points)
            k = min(len(pts) - 1, int(STRIDE[how] * len(pts)))
            ref.del_point(k)
            dele.append((["delp", k], False))
        else:
            k = min(len(ref.edges) - 1, int(STRIDE[how] * len(ref.edges)))
            ref.del_edge(k)
            dele.append((["del", k], False))
        i += 1
    # every deletion of the first ones and some of the others
    m = max(1, len(dele) // 4)
    dele = [(op, i < 3 or i % m == m - 1 or i == len(dele) - 1) for i, (op, _) in enumerate(dele)]
    return ops + dele


def built(case):
    """Number of operations without the deletions."""
    return sum(len(p) for p in phases(*case))


def cases(ctx, quick=(("grid", 6), ("grid", 12), ("boxes", 36), ("nest", 18), ("comb", 48), ("fan", 40), ("path", 140)),
          thorough=(("grid", 6), ("grid", 12), ("grid", 17), ("boxes", 36), ("boxes", 64), ("nest", 18), ("nest", 30), ("comb", 48), ("comb", 90),
                    ("fan", 40), ("fan", 120), ("path", 140), ("path", 300))):
    sizes = ctx.pick(quick, thorough)
    ctx.bound("large drawings: {}, built in 3 orders, then taken apart".format(", ".join("{} {}".format(f, n) for f, n in sizes)))
    return [[f, n, how] for f, n in sizes for how in ORDERS]


def walk(case, out, check, every=None, run=None):
    """Execute the history, compare the drawing and call check(run) at the checkpoints."""
    r = run or ls.Run()
    for i, (op, stop) in enumerate(history(case)):
        r.step(op, verify=stop)
        out.transitions += 1
        if stop or every and i % every == 0:
            r.compare_geometry()
            if check:
                check(r)
            out.states += 1
    return r


def samples(case):
    """Points away from the lines."""
    f, n, _ = case
    lo, hi = {"grid": (-1, n), "boxes": (-1, 3 * max(1, int(n ** 0.5)) + 1), "nest": (-n - 1, n + 2), "comb": (-1, n), "fan": (-n // 4, n // 4), "path": (-1, n)}[f]
    k = max(1, (hi - lo) // 9)
    ys = [0.29, 2.41, 3.83] if f in ("comb", "path") else [y + 0.37 for y in range(lo, hi, k)]
    return [(10 * (x + 0.23), 10 * y) for x in range(lo, hi, k) for y in ys]
