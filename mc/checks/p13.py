"""P13: identifiers are unique and found for every history of additions and removals."""
from bgem.polygons import idmap

from .. import core
from ..core import require

LEVEL = "model_checking"
ASSUMPTIONS = ["every object is in at most one map and at most once"]


class Obj(idmap.IdObject):
    pass


def evaluate(hist, out):
    m = idmap.IdMap()
    live = []
    for op in hist:
        if op[0] == "add":
            o = Obj()
            res = m.append(o)
            require(res is o, "append returned another object")
            require(all(o.id != q.id for q in live), "id {} is given to two objects at the same time", o.id)
            live.append(o)
        else:
            o = live.pop(op[1])
            old = o.id
            m.remove(o)
            require(o.id == old, "a removed object lost its id")
    require(len(m) == len(live), "the map has {} objects instead of {}", len(m), len(live))
    for o in live:
        require(m.get(o.id) is o, "object with id {} is not found", o.id)
        require(hash(o) == hash(o.id) and o == o, "object {} is not usable as a key", o.id)
    require(sorted(m) == sorted(o.id for o in live), "ids {} do not match the objects", sorted(m))
    require(all((a == b) == (a is b) for a in live for b in live), "comparison of objects does not identify them")
    # ids are compact: never more ids than the largest number of objects existing at once
    most = n = 0
    for op in hist:
        n += 1 if op[0] == "add" else -1
        most = max(most, n)
    require(all(0 <= o.id < most for o in live), "id {} given although at most {} objects existed", [o.id for o in live], most)
    if out is not None:
        out.outcomes.add(tuple(o.id for o in live))
    return tuple(o.id for o in live), len(hist) if False else None, tuple(getattr(m, "_free_ids", ()))


TAKE = {"first": lambda n, j: 0, "last": lambda n, j: n - 1, "middle": lambda n, j: n // 2, "mixed": lambda n, j: (j * 7) % n}


def large(case, out):
    """Two maps at once, many objects, taken away in some order and replaced by new ones."""
    n, take, part = case
    maps = [idmap.IdMap(), idmap.IdMap()]
    live = [[], []]

    def check():
        for m, objs in zip(maps, live):
            require(sorted(m) == sorted({o.id for o in objs}) and len(m) == len(objs), "{} objects with {} different ids, the map has {}",
                    len(objs), len({o.id for o in objs}), len(m))
            for o in objs:
                require(m.get(o.id) is o, "object with id {} is not found", o.id)
            require(all(0 <= o.id < n for o in objs), "an id is given although at most {} objects existed", n)

    def add(t):
        o = Obj()
        require(maps[t].append(o) is o, "append returned another object")
        live[t].append(o)
        if out is not None:
            out.transitions += 1
    for i in range(n):
        add(0)
        if i % 2:
            add(1)
    check()
    for rounds in range(3):
        for j in range(max(1, n // part)):
            for t in (0, 1):
                if live[t]:
                    o = live[t].pop(TAKE[take](len(live[t]), j))
                    maps[t].remove(o)
        check()
        for j in range(3 * n):
            if len(live[0]) < n:
                add(0)
            if len(live[1]) < n // 2:
                add(1)
            if rounds == 1 and j % 5 == 0 and j < 2 * n:
                maps[0].remove(live[0].pop(TAKE[take](len(live[0]), j)))
        check()
    if out is not None:
        out.outcomes.add(tuple(o.id for o in live[0]))


def explore(ctx):
    def expand(h, out):
        n = sum(1 if o[0] == "add" else -1 for o in h)
        out.extra["expanded"] += 1
        res = []
        for op in [["add"]] * (n < 6) + [["rm", k] for k in range(n)]:
            c, err = core.guarded(evaluate, h + [op], out)
            out.transitions += 1
            out.traces += 1
            if err:
                out.violations.append((len(h) + 1, "ids:" + repr(h + [op]), err, {"space": "ids", "case": h + [op]}))
            else:
                # histories with the same visible ids may differ inside, keep them apart by length
                res.append((c + (len(h) if h and len(h) < 6 else 0,), op))
        return res
    ctx.bfs("ids", [[]], expand, ctx.pick(9, 11))
    ctx.each("large", [[n, take, part] for n in (7, 20, 60, 130, 600) for take in TAKE for part in (1, 2, 7)], large)


def replay(case):
    if case["space"] == "large":
        large(case["case"], None)
    else:
        evaluate(case["case"], None)
