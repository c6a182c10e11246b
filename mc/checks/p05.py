"""P05: undo and redo of drawing edits restore the exact previous and next drawing."""
from bgem import undo
from bgem.polygons import polygons as pg

from .. import core, poly_harness as ph, poly_space as ps, line_space as ls, large
from ..core import require
from ..planar import seg_dist

LEVEL = "model_checking"
ASSUMPTIONS = ["every user operation is one undo group", "moving of points is not an undoable operation"]

SK = {
    "tri": ps.Skeleton("tri", [(0, 0), (6, 0), (3, 5), (3, 2)]),
    "two": ps.Skeleton("two", [(0, 0), (6, 0), (6, 5), (0, 5)]),
}


def cyc(c):
    c = list(c)
    if not c:
        return ()
    i = c.index(min(c))
    return tuple(c[i:] + c[:i])


def snapshot(pd):
    pts = {i: (float(p.xy[0]), float(p.xy[1]), p.attr) for i, p in pd.points.items()}
    segs = {i: (s.vtxs[0].id, s.vtxs[1].id, s.attr) for i, s in pd.segments.items()}
    polys = {}
    for i, p in pd.polygons.items():
        outer = cyc((s.id, d) for s, d in p.outer_wire.segments())
        holes = tuple(sorted(cyc((s.id, d) for s, d in w.segments()) for w in p.outer_wire.childs))
        polys[i] = (outer, holes, tuple(sorted(q.id for q in p.free_points)), p.attr)
    return (tuple(sorted(pts.items())), tuple(sorted(segs.items())), tuple(sorted(polys.items())))


class Run:
    def __init__(self, name):
        self.sk = SK[name]
        undo.setstack(undo.Stack())
        pg.enable_undo()
        self.pd = pg.PolygonDecomposition()
        self.states = [snapshot(self.pd)]
        self.cur = 0

    def at(self, i):
        """Current point object at skeleton position i or None."""
        x, y = self.sk.points[i]
        for p in self.pd.points.values():
            if abs(p.xy[0] - x) < 1e-9 and abs(p.xy[1] - y) < 1e-9:
                return p
        return None

    def seg(self, i, j):
        a, b = self.at(i), self.at(j)
        if a is None or b is None:
            return None
        for s in self.pd.segments.values():
            if {s.vtxs[0].id, s.vtxs[1].id} == {a.id, b.id}:
                return s
        return None

    def target(self, op):
        k = op[1]
        if k == "pt":
            return self.at(op[2])
        if k == "seg":
            return self.seg(op[2], op[3])
        if k == "outer":
            return self.pd.outer_polygon
        s = self.seg(op[2], op[3])
        return None if s is None else s.polygons()[op[4]]

    def perform(self, op):
        """Return False when the operation is not applicable."""
        k = op[0]
        pd = self.pd
        if k == "pt":
            pd.add_point(self.sk.points[op[1]])
        elif k == "half":
            a, b = self.sk.points[op[1]], self.sk.points[op[2]]
            pd.add_point(((a[0] + b[0]) / 2, (a[1] + b[1]) / 2))
        elif k == "line":
            pd.add_line(self.sk.points[op[1]], self.sk.points[op[2]])
        elif k == "seg":
            a, b = self.at(op[1]), self.at(op[2])
            if a is None or b is None:
                return False
            if self.seg(op[1], op[2]) is None:
                from ..planar import proper_cross
                for s in pd.segments.values():
                    if proper_cross(a.xy, b.xy, s.vtxs[0].xy, s.vtxs[1].xy):
                        return False
                for p in pd.points.values():
                    if p.id not in (a.id, b.id) and seg_dist(p.xy, a.xy, b.xy) < 0.05:
                        return False
            pd.new_segment(a, b)
        elif k == "del":
            s = self.seg(op[1], op[2])
            if s is None:
                return False
            pd.delete_segment(s)
        elif k == "delp":
            p = self.at(op[1])
            if p is None:
                return False
            pd.delete_point(p)
        elif k == "attr":
            o = self.target(op)
            if o is None:
                return False
            pd.set_attr(o, op[-1])
            require(o.attr == op[-1], "attribute was not set")
        else:
            raise AssertionError(op)
        return True

    def step(self, op):
        st = undo.stack()
        if op[0] == "undo":
            if self.cur == 0:
                return False
            st.undo()
            self.cur -= 1
        elif op[0] == "redo":
            if self.cur == len(self.states) - 1:
                return False
            st.redo()
            self.cur += 1
        else:
            n = st.undocount()
            ok = True
            with undo.group("op"):
                ok = self.perform(op)
            if not ok:
                return False
            require(st.undocount() == n + 1, "one operation added {} undo steps", st.undocount() - n)
            del self.states[self.cur + 1:]
            self.states.append(snapshot(self.pd))
            self.cur += 1
        self.compare(op[0])
        return True

    def compare(self, what):
        exp, got = self.states[self.cur], snapshot(self.pd)
        for name, e, g in zip(("points", "segments", "polygons"), exp, got):
            require(e == g, "after {} the {} are {} instead of {}", what, name, g, e)

    def finish(self):
        """Walk the whole history, check the topology, then probe the snapping in the final state."""
        ph.check_subdivision(self.pd, aspects=("faces", "free", "links"))
        while self.cur > 0:
            self.step(["undo"])
        ph.check_subdivision(self.pd, aspects=("faces", "free", "links"))
        while self.cur < len(self.states) - 1:
            self.step(["redo"])
        ph.check_subdivision(self.pd, aspects=("faces", "free", "links"))
        known = {i: (x, y) for i, (x, y, _) in self.states[self.cur][0]}
        for i, xy in known.items():
            p = self.pd.add_point(xy)
            require(p.id == i, "point {} is not found at its position", i)
        require(snapshot(self.pd) == self.states[self.cur], "looking up existing points changed the drawing")
        for i in range(len(self.sk.points)):
            x, y = self.sk.points[i]
            if self.at(i) is None:
                p = self.pd.add_point((x, y))
                require(abs(p.xy[0] - x) + abs(p.xy[1] - y) < 1e-9 and p.id not in known,
                        "adding a point where there is none found point {}", p.id)


def run(name, hist):
    r = Run(name)
    try:
        for op in hist:
            if not r.step(op):
                return None
        c = (r.states, r.cur)
        c = (tuple(r.states), r.cur)
        r.finish()
        return c
    finally:
        undo.setstack(undo.Stack())
        pg.disable_undo()


ALPHA = {
    "tri": [["line", 0, 1], ["line", 1, 2], ["line", 2, 0], ["line", 0, 3], ["del", 0, 1], ["del", 2, 0], ["delp", 0], ["pt", 3],
            ["half", 0, 1], ["seg", 1, 0], ["undo"], ["redo"]],
    "two": [["line", 0, 2], ["line", 1, 3], ["line", 3, 1], ["half", 0, 2], ["delp", 1], ["del", 0, 2], ["seg", 0, 1], ["undo"], ["redo"]],
}
T3 = [["line", 0, 1], ["line", 1, 2], ["line", 2, 0]]
ATTR = [["attr", "pt", 0, "A"], ["attr", "seg", 0, 1, "B"], ["attr", "poly", 0, 1, 1, "C"], ["attr", "outer", "O"], ["del", 0, 1],
        ["delp", 0], ["half", 0, 1], ["line", 2, 3], ["pt", 3], ["seg", 0, 1], ["undo"], ["redo"], ["line", 0, 3], ["line", 3, 1]]


def same(exp, pd, what):
    for name, e, g in zip(("points", "segments", "polygons"), exp, snapshot(pd)):
        require(e == g, "after {} the {} are {} instead of {}", what, name, [x for x in g if x not in e][:5], [x for x in e if x not in g][:5])


def big(case, out):
    """Large drawings: everything undone and redone, some of it undone and continued otherwise."""
    undo.setstack(undo.Stack())
    try:
        pd = pg.PolygonDecomposition()
        pg.enable_undo()
        undo.stack().clear()
        r = ls.Run(pd)
        states = [snapshot(pd)]
        hist = large.history(case)
        for op, stop in hist:
            with undo.group("op"):
                r.step(op)
            states.append(snapshot(pd))
            out.transitions += 1
            if stop:
                undo.stack().undo()
                same(states[-2], pd, "undo")
                undo.stack().redo()
                same(states[-1], pd, "redo")
                out.states += 1
        n = len(hist)
        require(undo.stack().undocount() == n, "{} operations made {} undo steps", n, undo.stack().undocount())
        for k in range(n, 0, -1):
            undo.stack().undo()
            same(states[k - 1], pd, "undo")
        for k in range(n):
            undo.stack().redo()
            same(states[k + 1], pd, "redo")
            if k % max(1, n // 6) == 3:
                ph.check_subdivision(pd, aspects=("faces", "free", "links"))
        out.transitions += 2 * n
        for k in range(n, n // 2, -1):
            undo.stack().undo()
        ref = ls.Run(pd)
        ref.ref = ls.ref_of([op for op, _ in hist[:n // 2]])
        with undo.group("op"):
            ref.step(["line", [-1.25, -2.5], [2.25, 1.75]])
        ref.compare_geometry()
        ph.check_subdivision(pd, aspects=("faces", "free", "links"))
        require(undo.stack().redocount() == 0 and undo.stack().undocount() == n // 2 + 1, "counts of undo and redo steps after a new operation")
        undo.stack().undo()
        same(states[n // 2], pd, "undo")
    finally:
        undo.setstack(undo.Stack())
        pg.disable_undo()


def explore(ctx):
    spaces = [("tri", [[]], ALPHA["tri"], ctx.pick(5, 6)), ("tri", [T3], ALPHA["tri"], ctx.pick(4, 5)), ("two", [[]], ALPHA["two"], ctx.pick(6, 7)),
              ("tri", [T3, T3 + [["line", 0, 3], ["line", 3, 1]]], ATTR, ctx.pick(4, 5))]
    for name, roots, alphabet, depth in spaces:
        def expand(h, out):
            res = []
            out.extra["expanded"] += 1
            for op in alphabet:
                hist = h + [op]
                c, err = core.guarded(run, name, hist)
                if err is not None:
                    out.violations.append((len(hist), name + ":" + repr(hist), err, {"space": name, "case": hist}))
                elif c is None:
                    continue
                else:
                    res.append((c, op))
                    out.outcomes.add(core.canon_hash(c[0][-1])[:6])
                out.transitions += 1
                out.traces += 1
            return res
        ctx.bfs(name, roots, expand, depth)
    ctx.each("large", large.cases(ctx), big, chunk=1)


def replay(case):
    if case["space"] == "large":
        big(case["case"], core.Out())
        return []
    run(case["space"], case["case"])
    return []
