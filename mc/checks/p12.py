"""P12: the bounding box lookup never loses a candidate."""
import itertools
import math

import numpy as np
from bgem.polygons import aabb_lookup

from .. import core
from ..core import require

LEVEL = "model_checking"
ASSUMPTIONS = ["boxes with finite coordinates much smaller than the infinity of the table", "ids are non negative integers"]

BOXES = [(0, 0, 0, 0), (0, 0, 2, 1), (1, 1, 3, 3), (-2, -1, -1, 4), (0, 0, 5, 5), (4, 0, 4, 5), (6, 6, 6, 6), (-3, -3, 7, 7),
         (2, 1, 2, 1)]
PTS = [(x, y) for x in (-4, -2, -0.5, 0, 1, 2.5, 4, 6, 9) for y in (-4, -1, 0, 0.5, 1, 3, 5, 6, 9)]
QBOX = [(x, y, x + w, y + h) for x in (-4, -1, 0, 2, 4, 6) for y in (-4, 0, 1, 5, 6) for w, h in ((0, 0), (1, 0), (0, 3), (2, 2), (9, 9))]


def far(b, p):
    return math.hypot(max(b[0] - p[0], 0, p[0] - b[2]), max(b[1] - p[1], 0, p[1] - b[3]))


def farthest(b, p):
    return math.hypot(max(abs(b[0] - p[0]), abs(b[2] - p[0])), max(abs(b[1] - p[1]), abs(b[3] - p[1])))


def verify(lk, model, out=None, pts=PTS, qboxes=QBOX):
    for p in pts:
        got = list(map(int, lk.closest_candidates(np.array(p, dtype=float))))
        require(len(set(got)) == len(got), "candidates {} are repeated", got)
        require(set(got) <= set(model), "candidates {} contain objects that are not in the table {}", got, sorted(model))
        if model:
            # an object in box i is at most farthest(i) away, an object in box j at least far(j)
            reach = min(farthest(b, p) for b in model.values())
            least = min(far(b, p) for b in model.values())
            must = [i for i, b in model.items() if far(b, p) < reach - 1e-9]
            must += [i for i, b in model.items() if far(b, p) == least and farthest(b, p) == reach]
            miss = set(must) - set(got)
            require(not miss, "box {} of object {} may contain the object closest to {} but is no candidate (of {})",
                    [model[i] for i in miss], sorted(miss), p, got)
        else:
            require(not got, "empty table gives candidates {}", got)
    for q in qboxes:
        got = sorted(map(int, lk.intersect_candidates(np.array(q, dtype=float))))
        exp = sorted(i for i, b in model.items() if not (q[2] < b[0] or b[2] < q[0] or q[3] < b[1] or b[3] < q[1]))
        require(got == exp, "objects intersecting box {} are {} instead of {}", q, got, exp)


def ids(tier):
    return (0, 1, 2, 5) if tier else (0, 1, 2, 5, 9)


def run(hist, init=2):
    lk = aabb_lookup.AABB_Lookup(init_size=init)
    model = {}
    for op in hist:
        if op[0] == "add":
            lk.add_object(op[1], np.array(BOXES[op[2]], dtype=float))
            model[op[1]] = BOXES[op[2]]
        else:
            lk.rm_object(op[1])
            del model[op[1]]
    return lk, model


def evaluate(hist, out):
    lk, model = run(hist)
    verify(lk, model)
    return tuple(sorted(model.items())), max([o[1] for o in hist], default=-1)


def boxes_eval(case, out):
    pts, margin = case
    box = aabb_lookup.make_aabb([np.array(p, dtype=float) for p in pts], margin=margin)
    m = margin if margin > 0 else 0
    exp = (min(p[0] for p in pts) - m, min(p[1] for p in pts) - m, max(p[0] for p in pts) + m, max(p[1] for p in pts) + m)
    require(np.allclose(box, exp, rtol=0, atol=1e-12), "bounding box of {} with margin {} is {} instead of {}", pts, margin, box, exp)


LARGE = ("grid", "nest", "diag")
PLACES = {"small": (0, 0, 1), "far": (4e5, -7e5, 1), "metric": (-3e6, 2e6, 250), "tiny": (0, 0, 2.0**-12)}


def large_box(kind, i, n):
    """Box of the i-th of n objects (lattice coordinates)."""
    if kind == "grid":
        k = int(math.ceil(math.sqrt(n)))
        x, y = 3 * (i % k), 3 * (i // k)
        return x, y, x + 1 + i % 3, y + 2 - i % 2
    if kind == "nest":
        return i - n, 2 * (i - n), n - i, n - i + 1
    return i, -i, i + 2, -i + (i % 5)


def large(case, out):
    """A table of many objects (of ids in any order, with gaps), some of them removed, moved and added again."""
    kind, n, init, stride, place = case
    ox, oy, k = PLACES[place]

    def at(b):
        return ox + k * b[0], oy + k * b[1], ox + k * b[2], oy + k * b[3]
    boxes = [large_box(kind, i, n) for i in range(n)]
    near = [boxes[(j * n) // 7] for j in range(7)]
    pts = [(ox + k * (b[u] + dx), oy + k * (b[v] + dy)) for b in near for u, v in ((0, 1), (2, 3)) for dx, dy in ((-.5, .25), (.5, .75), (9, -4))]
    qs = [at((b[0] + d, b[1] - d, b[2] + e, b[3] + e)) for b in near for d, e in ((0, 0), (0.25, 1), (-3, 4))]
    lks = [aabb_lookup.AABB_Lookup(**({"init_size": init} if init else {})) for _ in range(2)]
    models = [{}, {}]

    def op(t, i, b):
        if b is None:
            lks[t].rm_object(i)
            del models[t][i]
        else:
            lks[t].add_object(i, np.array(at(b), dtype=float))
            models[t][i] = at(b)
        if out is not None:
            out.transitions += 1
    order = [(i * stride) % n for i in range(n)]
    for j, i in enumerate(order):
        op(0, 2 * i, boxes[i])
        if j % 3 == 0:
            op(1, i, boxes[n - 1 - i])
        if j in (0, 1, n // 4, n // 2):
            verify(lks[0], models[0], pts=pts, qboxes=qs)
    for t in (0, 1):
        verify(lks[t], models[t], pts=pts, qboxes=qs)
    for j, i in enumerate(order):
        if j % 3:
            op(0, 2 * i, None)
    for t in (0, 1):
        verify(lks[t], models[t], pts=pts, qboxes=qs)
    for j, i in enumerate(order):
        if j % 3 == 1:
            op(0, 2 * i, boxes[(i + 5) % n])
        elif j % 3 == 0 and j % 2:
            op(0, 2 * i, boxes[(i + 9) % n])    # moved
    for t in (0, 1):
        verify(lks[t], models[t], pts=pts, qboxes=qs)
    for i in sorted(models[0], reverse=True):
        op(0, i, None)
    verify(lks[0], {}, pts=pts, qboxes=qs)
    op(0, 3, boxes[0])
    for t in (0, 1):
        verify(lks[t], models[t], pts=pts, qboxes=qs)
    if out is not None:
        out.outcomes.add((kind, n, place))


def explore(ctx):
    idl = ids(ctx.quick)

    def expand(h, out):
        res = []
        out.extra["expanded"] += 1
        _, model = run(h)
        ops = [["add", i, b] for i in idl for b in range(len(BOXES))] + [["rm", i] for i in sorted(model)]
        for op in ops:
            c, err = core.guarded(evaluate, h + [op], out)
            out.transitions += 1
            out.traces += 1
            if err:
                out.violations.append((len(h) + 1, "lookup:" + repr(h + [op]), err, {"space": "lookup", "case": h + [op]}))
            else:
                out.outcomes.add(core.canon_hash(c)[:6])
                res.append((c, op))
        return res
    ctx.bfs("lookup", [[]], expand, ctx.pick(3, 4))
    ctx.each("large", [[kind, n, init, stride, place] for kind in LARGE for n in ctx.pick((40, 150, 700), (40, 150, 700, 3000))
                       for init in (None, 1, 256) for stride in (1, 11, n - 1) for place in PLACES if n < 700 or init is None],
             large)
    pts = [(0, 0), (1.5, -2), (-3, 4), (2, 2)]
    ctx.each("boxes", [[list(c), m] for n in (1, 2, 3, 4) for c in itertools.product(pts, repeat=n) for m in (-1, 0, 0.01, 2)],
             boxes_eval)


def replay(case):
    if case["space"] == "boxes":
        boxes_eval(case["case"], None)
    elif case["space"] == "large":
        large(case["case"], None)
    else:
        evaluate(case["case"], None)
