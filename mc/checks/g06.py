"""G06: histories of geometric operations on object sets against a lattice model of shapes and regions."""
import itertools
import math

import gmsh
import numpy as np
from bgem.gmsh import gmsh as bg

from .. import core
from .. import occ_harness as oh
from ..core import require, Violation
from ..occ_harness import Slot

LEVEL = "model_checking"
ASSUMPTIONS = ["shapes are unions of unit lattice cells in [-2,2]^3; the geometric kernel (OCC) and the queries of gmsh are trusted"]

ROOTS = {
    "3d": [("box", (-2, -1, -1), (0, 1, 0), "a"), ("box", (-1, -1, -1), (1, 0, 1), "b"), ("box", (0, 0, 0), (2, 1, 1), "c")],
    "touch": [("box", (-1, -1, 0), (0, 1, 1), None), ("box", (0, -1, 0), (1, 1, 1), "b"), ("box", (-1, 0, 0), (1, 1, 1), "a")],
    "2d": [("rect", (-2, -1, 0), (1, 1, 0), "a"), ("rect", (-1, 0, 0), (2, 1, 0), "b"), ("rect", (0, -2, 0), (1, 2, 0), None)],
    "mixed": [("rect", (-2, -1, 0), (1, 1, 0), "r"), ("box", (-1, -1, -1), (1, 1, 1), "b"), ("box", (0, 0, -1), (2, 1, 1), None)],
    "line": [("line", (-2, -1, 0), (2, -1, 0), "l"), ("box", (-1, -2, -1), (0, 0, 1), "b"), ("rect", (-2, -2, 0), (1, 0, 0), None)],
}
EQUAL = {        # equal shapes, one set after the fragmentation
    "equal3": [("box", (-1, -1, 0), (1, 1, 1), "a"), ("box", (-1, -1, 0), (1, 1, 1), "b"), ("box", (0, 0, 0), (2, 1, 2), None)],
    "equal2": [("rect", (-1, -1, 0), (1, 1, 0), None), ("rect", (-1, -1, 0), (1, 1, 0), "b"), ("rect", (-1, -1, 0), (1, 1, 0), "b")],
}
DEFAULT = ["default_{}d".format(d) for d in range(4)]

MOVES = {
    "tx": ("translate", (1, 0, 0)), "tz": ("translate", (0, -1, 1)),
    "rz": ("rotate", (0, 0, 1), 1, None), "rc": ("rotate", (0, 0, 2), 3, (0, 1, 0)), "rx": ("rotate", (-1, 0, 0), 1, (0, 0, 0)),
    "sx": ("scale", (-1, 1, 1), None), "s2": ("scale", (2, 1, 1), (-2, 0, 0)), "sm": ("scale", (1, -1, 1), (0, 0, 1)),
}


def mapping(move):
    kind = MOVES[move][0]
    if kind == "translate":
        v = MOVES[move][1]
        return lambda p: [a + b for a, b in zip(p, v)]
    if kind == "scale":
        v, c = MOVES[move][1], MOVES[move][2] or (0, 0, 0)
        return lambda p: [b + s * (a - b) for a, s, b in zip(p, v, c)]
    ax, q, c = MOVES[move][1], MOVES[move][2], MOVES[move][3] or (0, 0, 0)
    k = [i for i in range(3) if ax[i]][0]
    q = q if ax[k] > 0 else -q
    i, j = (k + 1) % 3, (k + 2) % 3

    def rot(p):
        r = [a - b for a, b in zip(p, c)]
        for _ in range(q % 4):
            r[i], r[j] = -r[j], r[i]
        return [a + b for a, b in zip(r, c)]
    return rot


def apply_move(obj, move):
    kind = MOVES[move][0]
    if kind == "translate":
        return obj.translate(list(MOVES[move][1]))
    if kind == "scale":
        v, c = MOVES[move][1:]
        return obj.scale(list(v)) if c is None else obj.scale(list(v), center=list(c))
    ax, q, c = MOVES[move][1:]
    return obj.rotate(list(ax), q * math.pi / 2) if c is None else obj.rotate(list(ax), q * math.pi / 2, list(c))


class State:
    def __init__(self, root):
        self.f = oh.factory()
        self.slots = []
        for kind, lo, hi, reg in {**ROOTS, **EQUAL}[root]:
            sides = [b - a for a, b in zip(lo, hi)]
            center = [(a + b) / 2 for a, b in zip(lo, hi)]
            if kind == "box":
                obj = self.f.box(sides, center)
            elif kind == "rect":
                obj = self.f.rectangle(sides[:2], center=center)
            else:
                obj = self.f.make_simplex(1).scale([sides[0], 1, 1]).translate(list(lo))
            cells = oh.box_cells(lo, hi)
            if reg is not None:
                require(obj.set_region(reg) is obj, "set_region does not return its object")
            d = {"box": 3, "rect": 2, "line": 1}[kind]
            self.slots.append(Slot(obj, [(cells, reg or DEFAULT[d])]))
        self.names = 0

    def drop_entities(self, tags):
        """Forget the slots with entities that were consumed."""
        tags = set(tags)
        self.slots = [s for s in self.slots if s.obj.dim_tags is not None and not tags & set(s.tags)]

    # ------------------------------------------------------------------ operations
    def enabled(self, alphabet, max_slots):
        n = len(self.slots)
        tangled = self.tangled()
        for i, s in enumerate(self.slots):
            ok = bool(s.items) and s.distinct()
            free = ok and self.exclusive(i)
            for m in alphabet["move"]:
                if free and all(oh.transform(c, mapping(m)) is not None for c, r in s.items):
                    yield ["move", i, m]
            if ok and n < max_slots:
                for o in alphabet["one+"]:
                    yield [o, i]
            if s.items:
                for o in alphabet["one"]:
                    if o == "small" and len({len(c) for c, r in s.items}) < 2 and len(s.items) > 1:
                        continue
                    if o in ("region", "modify", "single") and len(s.dims()) != 1:
                        continue
                    yield [o, i]
        for i, j in itertools.permutations(range(n), 2):
            s, t = self.slots[i], self.slots[j]
            if not s.items or not t.items or len(s.dims()) > 1 or len(t.dims()) > 1:
                continue
            for o in alphabet["two"]:
                if o == "group":
                    if n < max_slots and not set(s.tags) & set(t.tags):
                        yield [o, i, j]
                    continue
                if not s.distinct() or not t.distinct():
                    continue
                if i in tangled or (j in tangled and o in ("ffrag", "sbc")):
                    continue
                if o in ("cut", "intersect") and s.dims()[0] > t.dims()[0]:
                    continue
                if o in ("cut", "intersect", "sbc", "select") and (self.overlapping(s) or self.overlapping(t)):
                    continue
                if o in ("ffrag", "sbc") and set(s.tags) & set(t.tags):
                    continue
                if o in ("select", "sbc") and s.dims() != t.dims():
                    continue
                if o in ("fragment", "ffrag") and not separating([s, t]):
                    continue
                yield [o, i, j]
        if n >= 3:
            for i, j, k in itertools.permutations(range(n), 3):
                ss = [self.slots[x] for x in (i, j, k)]
                if any(not s.items or len(s.dims()) > 1 or not s.distinct() or self.overlapping(s) for s in ss):
                    continue
                if set(ss[0].tags) & set(ss[1].tags) or set(ss[1].tags) & set(ss[2].tags) or set(ss[0].tags) & set(ss[2].tags):
                    continue
                for o in alphabet["three"]:
                    if i in tangled or (o == "ffrag3" and tangled & {j, k}):
                        continue
                    if o in ("fragment3", "ffrag3") and not separating(ss):
                        continue
                    if o != "ffrag3" and (j > k or ss[0].dims()[0] > min(ss[1].dims()[0], ss[2].dims()[0])):
                        continue
                    yield [o, i, j, k]

    @staticmethod
    def closure(tags):
        res, todo = set(tags), list(tags)
        while todo:
            d, t = todo.pop()
            for low in gmsh.model.getAdjacencies(d, t)[1]:
                if (d - 1, low) not in res:
                    res.add((d - 1, low))
                    todo.append((d - 1, low))
        return res

    def exclusive(self, i):
        """Moving a part of a connected model tears it: only sets sharing nothing with other shapes are moved."""
        oh.sync(self.f)
        top = set(self.slots[i].tags)
        closure = self.closure(top)
        for d, t in closure:
            if any((d + 1, u) not in closure for u in gmsh.model.getAdjacencies(d, t)[0]):
                return False
        return not any(top & set(s.tags) for k, s in enumerate(self.slots) if k != i)

    def tangled(self):
        """Sets with an entity that bounds an entity of another set (or of the rest of the model): gmsh removes or replaces both together."""
        oh.sync(self.f)
        res = set()
        for i, s in enumerate(self.slots):
            if any(d < 3 and len(gmsh.model.getAdjacencies(d, t)[0]) for d, t in s.tags):
                res.add(i)
            low = self.closure(s.tags) - set(s.tags)
            for j, t in enumerate(self.slots):
                if i != j and low & set(t.tags):
                    res |= {i, j}
        return res

    @staticmethod
    def overlapping(slot):
        seen = set()
        for c, r in slot.items:
            if seen & c:
                return True
            seen |= c
        return False

    def apply(self, op):
        f = self.f
        o, i = op[0], op[1]
        s = self.slots[i]
        what = str(op)
        cache = {}
        if o == "move":
            m = mapping(op[2])
            require(apply_move(s.obj, op[2]) is s.obj, "{}: another object is returned", what)
            s.items = [(oh.transform(c, m), r) for c, r in s.items]
        elif o == "copy":
            c = s.obj.copy()
            require(not set(map(tuple, c.dim_tags)) & set(s.tags), "{}: the copy shares entities with the original", what)
            self.slots.append(Slot(c, list(s.items), s.conforming))
        elif o == "region":
            self.names += 1
            name = "n{}_{}".format(self.names, s.dims()[0])
            require(s.obj.set_region(name) is s.obj, "{}: another object is returned", what)
            s.items = [(c, name) for c, r in s.items]
        elif o == "single":
            name = "obj{}".format(s.dims()[0])
            reg = bg.Region.get(name)
            s.obj.set_region(reg)
            require(reg.dim == s.dims()[0], "{}: dimension of the region is {}", what, reg.dim)
            s.items = [(c, name) for c, r in s.items]
        elif o == "modify":
            s.obj.modify_regions("<{}>")
            s.items = [(c, "<{}>".format(r)) for c, r in s.items]
        elif o == "small":
            lim = min(len(c) for c, r in s.items)
            s.obj.remove_small_mass(lim + 0.5)
            s.items = [(c, r) for c, r in s.items if len(c) > lim]
        elif o == "group":
            t = self.slots[op[2]]
            self.slots.append(Slot(f.group(s.obj, t.obj), s.items + t.items))
        elif o in ("cut", "intersect", "fragment", "cut3", "intersect3", "fragment3"):
            tools = [self.slots[x] for x in op[2:]]
            u = frozenset().union(*[t.cells() for t in tools])
            name = o.rstrip("3")
            tags = s.tags
            res = getattr(s.obj, name)(*[t.obj for t in tools])
            require(s.obj.dim_tags is None, "{}: the destroyed object keeps its entities", what)
            self.slots.remove(s)
            self.drop_entities(tags)
            oh.sync(f)
            if name == "cut":
                exp = [(oh_restrict(c, u, False), r) for c, r in s.items]
            elif name == "intersect":
                exp = [(oh_restrict(c, u, True), r) for c, r in s.items]
            else:
                exp = s.items
            exp = [(c, r) for c, r in exp if c]
            uni = [c for t in tools for c, r in t.items] if name == "fragment" else []
            uni = [c if dim_of(c) == s.dims()[0] else oh_inside(ALLD[s.dims()[0]], c) for c in uni if s.items and dim_of(c) >= s.dims()[0]]
            self.slots.append(Slot(res, oh.pieces(res, exp, what, cache, uni), name == "fragment"))
        elif o in ("ffrag", "ffrag3"):
            ss = [self.slots[x] for x in op[1:]]
            tags = [t for x in ss for t in x.tags]
            res = f.fragment(*[x.obj for x in ss])
            require(len(res) == len(ss), "{}: {} sets returned", what, len(res))
            self.slots = [x for x in self.slots if x not in ss]
            self.drop_entities(tags)
            oh.sync(f)
            self.fragments(ss, res, what, cache)
        elif o == "sbc":
            t = self.slots[op[2]]
            tags = s.tags + t.tags
            res = s.obj.split_by_cut(t.obj)
            require(len(res) == 4, "{}: {} sets returned", what, len(res))
            self.slots = [x for x in self.slots if x is not s and x is not t]
            self.drop_entities(tags)
            oh.sync(f)
            us, ut = s.cells(), t.cells()
            exp = [[(c - ut, r) for c, r in s.items], [(c - us, r) for c, r in t.items],
                   [(c & ut, r) for c, r in s.items], [(c & us, r) for c, r in t.items]]
            uni = [c for x in (s, t) for c, r in x.items]
            new = [Slot(x, oh.pieces(x, [(c, r) for c, r in e if c], what + str(k), cache, uni), True) for k, (x, e) in enumerate(zip(res, exp))]
            require(set(new[2].tags) == set(new[3].tags), "{}: the two intersections differ", what)
            self.slots += [new[0], new[1], new[2 + len(self.slots) % 2]]
        elif o == "select":
            t = self.slots[op[2]]
            oh.sync(f)
            before = set(gmsh.model.getEntities())
            clear = all(sum(bool(oh_restrict(c, d, True)) for d, q in t.items) <= 1 and
                        all(oh.components(c & d) <= 1 for d, q in t.items) for c, r in s.items)
            try:
                res = s.obj.select_by_intersect(t.obj)
            except bg.BoolOperationError:
                require(not clear, "{}: refused although every entity has one intersection at most", what)
                self.slots.remove(s)
                return
            exp = [(dt, c, r) for dt, (c, r) in zip(s.tags, s.items) if c & t.cells()]
            require([tuple(x) for x in res.dim_tags] == [e[0] for e in exp], "{}: selected {} instead of {}", what, res.dim_tags, [e[0] for e in exp])
            oh.sync(f)
            after = set(gmsh.model.getEntities())
            require(before == after, "{}: the selection changed the model: {}", what, sorted(before ^ after))
            self.slots.append(Slot(res, [e[1:] for e in exp], s.conforming))
        elif o == "byreg":
            res = s.obj.split_by_region()
            names = []
            for dt, (c, r) in zip(s.tags, s.items):
                if r not in names:
                    names.append(r)
            got = []
            for x in res:
                require(len({id(r) for r in x.regions}) == 1, "{}: set with regions {}", what, [r.name for r in x.regions])
                name = x.regions[0].name
                part = [(dt, it) for dt, it in zip(s.tags, s.items) if it[1] == name]
                require([tuple(y) for y in x.dim_tags] == [p[0] for p in part], "{}: region {} has {} instead of {}", what, name, x.dim_tags, part)
                got.append(name)
                last = Slot(x, [p[1] for p in part])
            require(got == names, "{}: sets of regions {} instead of {}", what, got, names)
            self.slots.append(last)
        elif o == "bydim":
            oh.sync(f)
            res = s.obj.split_by_dimension()
            require(len(res) == 4, "{}: {} sets", what, len(res))
            for d, x in enumerate(res):
                part = [(dt, it) for dt, it in zip(s.tags, s.items) if dt[0] == d]
                require([tuple(y) for y in x.dim_tags] == [p[0] for p in part], "{}: dimension {} has {} instead of {}", what, d, x.dim_tags, part)
                oh.check_slot(Slot(x, [p[1] for p in part]), cache, what)
                if part:
                    last = Slot(x, [p[1] for p in part])
            self.slots.append(last)
        else:
            raise ValueError(o)

    def fragments(self, ss, res, what, cache):
        uni = {d: [] for d in range(4)}
        for x in ss:
            for c, r in x.items:
                for d in range(1, dim_of(c) + 1):
                    uni[d].append(c if dim_of(c) == d else oh_inside(ALLD[d], c))
        new = []
        for x, y in zip(ss, res):
            new.append(Slot(y, oh.pieces(y, x.items, what, cache, uni[x.dims()[0]] if x.items else ()), True))
            require(x.obj.dim_tags is None, "{}: the destroyed object keeps its entities", what)
        by_cells = {}
        for x in new:
            for dt, (c, r) in zip(x.tags, x.items):
                by_cells.setdefault((dt[0], c), set()).add(dt)
        for k, t in by_cells.items():
            require(len(t) == 1, "{}: coincident fragments {}", what, sorted(t))
        self.slots += new

    # ------------------------------------------------------------------ checks
    def check(self):
        oh.sync(self.f)
        cache = {}
        for k, s in enumerate(self.slots):
            what = "set {}".format(k)
            oh.check_slot(s, cache, what)
            self.observers(s, cache, what)

    def observers(self, s, cache, what):
        m = s.obj.mass()
        total = sum(len(c) for c, r in s.items)
        require(abs(m - total) < oh.EPS, "{}: mass {} instead of {}", what, m, total)
        com, cm = s.obj.center_of_mass()
        require(abs(cm - total) < oh.EPS, "{}: mass of the centre {} instead of {}", what, cm, total)
        if total:
            mean = np.mean(np.array([x for c, r in s.items for x in c]), axis=0) / 2
            require(np.max(np.abs(mean - com)) < oh.EPS, "{}: centre {} instead of {}", what, com, mean)
        if s.items and len(s.dims()) == 1 and not self.overlapping(s):
            d = s.dims()[0]
            bnd = s.obj.get_boundary()
            self.check_boundary(bnd, frozenset().union(*[oh.boundary(c) for c, r in s.items]), DEFAULT[d - 1], d, cache, what, False)
            if s.conforming:
                bnd = s.obj.get_boundary(combined=True)
                self.check_boundary(bnd, oh.boundary(s.cells()), DEFAULT[d - 1], d, cache, what, True)
        if s.items and 0 not in s.dims() and not self.overlapping(s) and s.conforming:
            by_reg = {}
            for c, r in s.items:
                by_reg.setdefault(r, set()).update(c)
            for fmt in ("<b {} e>", "bnd"):        # the second is the same for all regions
                parts = s.obj.get_boundary_per_region(fmt)
                require(len(parts) == len(by_reg), "{}: {} boundaries of {} regions", what, len(parts), len(by_reg))
                for p, (r, c) in zip(parts, by_reg.items()):
                    d = dim_of(c)
                    self.check_boundary(p, oh.boundary(c), fmt.format(r), d, cache, what, True)
                    require(all(x.dim == d - 1 for x in p.regions), "{}: dimension of the boundary region {}", what, [x.dim for x in p.regions])
                used = [x.id for p in parts for x in p.regions[:1]]
                require(len(set(used)) == len(used), "{}: boundaries of {} regions share a region", what, len(by_reg))

    @staticmethod
    def check_boundary(bnd, exp, name, d, cache, what, once):
        require(all(dt[0] == d - 1 for dt in bnd.dim_tags), "{}: boundary entities {}", what, bnd.dim_tags)
        require([r.name for r in bnd.regions] == [name] * len(bnd.dim_tags), "{}: boundary regions {}", what, [r.name for r in bnd.regions])
        got = [oh.decode(*dt, cache) for dt in map(tuple, bnd.dim_tags)]
        u = frozenset().union(*got) if got else frozenset()
        require(u == exp, "{}: boundary covers {} instead of {}", what, sorted(u), sorted(exp))
        if once:
            require(sum(map(len, got)) == len(u), "{}: repeated entities of the boundary {}", what, bnd.dim_tags)

    def canon(self):
        ids = {}
        share = [[ids.setdefault(t, len(ids)) for t in s.tags] for s in self.slots]
        return [[[s.canon(), s.conforming] for s in self.slots], share]


ALLD = {d: frozenset(c) for d, c in oh.ALL.items()}


def dim_of(cells):
    return sum(x % 2 for x in next(iter(cells)))


def inside(c, cells):
    """A cell of lower dimension lies in the closure of a shape."""
    d = dim_of(cells)
    ax = [[x] if x % 2 else [x - 1, x, x + 1] for x in c]
    return any(y in cells for y in itertools.product(*ax) if sum(v % 2 for v in y) == d)


def oh_inside(cand, cells):
    return frozenset(c for c in cand if inside(c, cells))


def oh_restrict(cells, u, keep):
    """Part of the shape inside (keep) or outside of the union u of shapes of any dimensions."""
    if not cells:
        return cells
    d = dim_of(cells)
    same = frozenset(c for c in cells if c in u)
    higher = [c for c in u if sum(x % 2 for x in c) > d]
    by_dim = {}
    for c in higher:
        by_dim.setdefault(sum(x % 2 for x in c), set()).add(c)
    ins = set(same)
    for k, v in by_dim.items():
        ins |= {c for c in cells if inside(c, v)}
    return frozenset(c for c in cells if (c in ins) == keep)


def separating(ss):
    """Every piece of lower dimension inside of a shape separates it: gmsh can not be queried about slit shapes."""
    shapes = [c for s in ss for c, r in s.items]
    for c in shapes:
        d = dim_of(c)
        cut = set()
        for e in shapes:
            if dim_of(e) < d:
                low = oh_inside(oh.ALL[dim_of(e)], c) & e
                low = {x for x in low if not on_boundary(x, c)}
                if low and dim_of(e) < d - 1:
                    return False
                cut |= low
        if not cut:
            continue
        comp, left = {}, set(c)
        while left:
            seed = left.pop()
            todo, comp[seed] = [seed], seed
            while todo:
                x = todo.pop()
                for i in range(3):
                    if x[i] % 2:
                        for sg in (-1, 1):
                            wall, y = x[:i] + (x[i] + sg,) + x[i + 1:], x[:i] + (x[i] + 2 * sg,) + x[i + 1:]
                            if y in left and wall not in cut:
                                left.remove(y)
                                comp[y] = seed
                                todo.append(y)
        for w in cut:
            i = [k for k in range(3) if w[k] % 2 == 0 and (w[:k] + (w[k] + 1,) + w[k + 1:]) in c][0]
            if comp[w[:i] + (w[i] + 1,) + w[i + 1:]] == comp[w[:i] + (w[i] - 1,) + w[i + 1:]]:
                return False
    return True


def on_boundary(x, cells):
    """The lower dimensional cell x of the closure of the shape does not lie in its interior."""
    d = dim_of(cells)
    flat = [k for k in range(3) if x[k] % 2 == 0 and any(c[k] % 2 for c in cells)]
    ax = [[x[k] - 1, x[k] + 1] if k in flat else [x[k]] for k in range(3)]
    return any(y not in cells for y in itertools.product(*ax) if sum(v % 2 for v in y) == d)


FULL = {"move": sorted(MOVES), "one": ["region", "modify", "small", "byreg", "bydim", "single"], "one+": ["copy"],
        "two": ["cut", "intersect", "fragment", "ffrag", "sbc", "select", "group"], "three": ["cut3", "intersect3", "fragment3", "ffrag3"]}
DEEP = {"move": ["tx", "rz"], "one": ["region", "small"], "one+": ["copy"],
        "two": ["cut", "fragment", "ffrag", "sbc", "select", "group"], "three": []}


def rebuild(root, hist):
    st = State(root)
    for op in hist:
        st.apply(op)
    return st


def expand(alphabet, max_slots):
    def run(h, out):
        root, hist = h[0], h[1:]
        res = []
        ops = list(rebuild(root, hist).enabled(alphabet, max_slots))
        out.extra["expanded"] += 1
        for op in ops:
            case = {"space": "history", "case": [root] + hist + [op]}
            r, err = core.guarded(step, root, hist, op)
            out.transitions += 1
            out.traces += 1
            out.extra["op:" + op[0]] += 1
            if err is not None:
                out.violations.append((len(hist) + 1, "history:" + core.json.dumps([root] + hist + [op]), err, case))
                if len(out.violations) > 20:
                    break
            else:
                res.append((["{}".format(root), r], op))
        return res
    return run


def step(root, hist, op):
    st = rebuild(root, hist)
    st.apply(op)
    st.check()
    return st.canon()


def history(case, out):
    for n in range(1, len(case)):
        step(case[0], case[1:n], case[n])


# ------------------------------------------------------------------ empty sets
def empty_ops(n):
    """All operations with at least one of the two empty sets n, n + 1 among their operands."""
    both = [n, n + 1]
    for o in ("cut", "intersect", "fragment", "ffrag", "select", "group", "sbc"):
        for i, j in itertools.permutations(range(n + 2), 2):
            if {i, j} & set(both):
                yield [o, i, j]
    for o in ("cut3", "intersect3", "fragment3", "ffrag3"):
        for idx in itertools.permutations(range(n + 2), 3):
            if set(idx) & set(both):
                yield [o] + list(idx)
    for e in both:
        for o in [["copy", e], ["modify", e]] + [["move", e, m] for m in ("tx", "rz", "sx")]:
            yield o


def empty_cases(ctx):
    for root in ("3d", "2d", "mixed", "touch", "line"):
        n = len(ROOTS[root])
        ops = list(empty_ops(n))
        for op in ops:
            yield [root, [op]]
        if root in ("3d", "mixed"):
            for i in range(n):
                for op in ops:
                    if op[0] in ("cut", "intersect", "fragment", "select", "cut3"):
                        yield [root, [["group", 0, 1], op]]
            for a in (["cut", 0, 1], ["intersect", 0, 2], ["copy", 1], ["ffrag", 0, 1]):
                for op in ops if not ctx.quick else ops[::3]:
                    yield [root, [a, op]]


def count(st):
    oh.sync(st.f)
    return [len(gmsh.model.getEntities(d)) for d in range(4)]


def empty(case, out):
    """Operations with empty sets: nothing is lost, nothing is left behind."""
    root, ops = case
    st = State(root)
    n = len(st.slots)
    e = [st.f.group(), bg.ObjectSet(st.f, [], [])]
    if root in ("3d", "2d"):
        e[1] = st.slots[0].obj.copy().intersect(st.slots[0].obj.copy().translate([9, 9, 0]))
        far = [dt for dt in st.f.all_entities() if dt[0] == {"3d": 3, "2d": 2}[root] and dt not in [x for s in st.slots for x in s.tags]]
        require(e[1].dim_tags == [] and len(far) == 1, "disjoint shapes intersect in {}, {}", e[1].dim_tags, far)
        st.f.model.remove(far, recursive=True)
        gmsh.model.occ.synchronize()
    st.slots += [Slot(e[0], []), Slot(e[1], [])]
    for op in ops[:-1]:
        if op[0] == "group":
            g = st.slots[0]
            g.obj, g.items = st.f.group(g.obj, st.slots[1].obj), g.items + st.slots[1].items
            del st.slots[1]
        else:
            st.apply(op)
    op = ops[-1]
    idx = [k for k in op[1:] if isinstance(k, int)]
    if max(idx) >= len(st.slots) or all(st.slots[k].items for k in idx) or [k for k in idx if len(st.slots[k].dims()) > 1]:
        return
    full = [k for k in idx if st.slots[k].items]
    if len(full) > 1:           # only what is a legal operation without the empty sets
        legal = [x for x in st.enabled(FULL, 9)]
        o = op[0]
        if o == "ffrag3":
            ok = ["ffrag"] + full in legal
        elif idx[0] in full:
            ok = [o.rstrip("3")] + full in legal
        else:
            ok = True
        if not ok:
            return
    if op[0] in ("intersect", "intersect3", "ffrag", "fragment", "fragment3", "ffrag3") and full and full[0] in st.tangled():
        return
    first = st.slots[idx[0]]
    n0 = count(st)
    st.apply(op)
    st.check()
    n1 = count(st)
    if op[0] in ("ffrag3", "ffrag", "sbc", "fragment", "fragment3", "cut", "cut3", "intersect", "intersect3"):
        if len(full) < 2 and not (op[0].startswith("intersect") and first.items) and (not full or len(st.slots[-1].items) < 2):
            require(n0 == n1, "{}: the model has {} entities instead of {}", op, n1, n0)
        if not first.items and op[0] not in ("ffrag3",):
            require(n0 == n1, "{}: the model has {} entities instead of {}", op, n1, n0)
        if op[0].startswith("intersect") and first.items and len(full) == 1:
            require(sum(n1) < sum(n0), "{}: intersected shape is left in the model", op)
    else:
        require(op[0] == "copy" or n0 == n1, "{}: the model has {} entities instead of {}", op, n1, n0)
    out.outcomes.add(str(case))


# ------------------------------------------------------------------ sets with repeated entities
def repeated_cases(ctx):
    for root in [*ROOTS, *EQUAL]:
        n = 3
        frags = [["ffrag", i, j] for i, j in itertools.permutations(range(n), 2) if i < j or not ctx.quick] + [["ffrag3", 0, 1, 2], ["ffrag3", 2, 0, 1]]
        for fr in frags:
            k = len(fr) - 1
            for m in sorted(MOVES):
                yield [root, fr, ["move", m]]
            for o in ("copy", "region", "modify", "small", "byreg", "bydim", "alone", "same"):
                yield [root, fr, [o]]
            if k < n:
                for o in ("cut", "intersect", "fragment", "ffrag", "select"):
                    yield [root, fr, [o, "g", 0]]
                    yield [root, fr, [o, 0, "g"]]


def repeated(case, out):
    """Operations with the group of all fragments, in which the common fragments are repeated."""
    root, fr, op = case
    st = State(root)
    if fr not in list(st.enabled(FULL, 9)) or any(s.dims() != st.slots[fr[1]].dims() for s in [st.slots[k] for k in fr[1:]]):
        return
    st.apply(fr)
    k = len(fr) - 1
    parts = st.slots[-k:]
    g = Slot(st.f.group(*[p.obj for p in parts]), [it for p in parts for it in p.items], True)
    st.slots.append(g)
    if op[0] == "move":
        m = mapping(op[1])
        closure = st.closure(g.tags)
        oh.sync(st.f)
        if any((d + 1, u) not in closure for d, t in closure for u in gmsh.model.getAdjacencies(d, t)[0]) or \
                any(oh.transform(c, m) is None for c, r in g.items):
            return
        require(apply_move(g.obj, op[1]) is g.obj, "{}: another object is returned", op)
        for s in parts + [g]:
            s.items = [(oh.transform(c, m), r) for c, r in s.items]
    elif op[0] in ("alone", "same"):
        if st.tangled() - set(range(len(st.slots) - k - 1, len(st.slots))):
            return
        tools = [] if op[0] == "alone" else [g.obj]
        tags = g.tags
        res = g.obj.fragment(*tools)
        require(g.obj.dim_tags is None, "{}: the destroyed object keeps its entities", op)
        st.slots.remove(g)
        st.drop_entities(tags)
        oh.sync(st.f)
        st.slots.append(Slot(res, oh.pieces(res, g.items, str(op), {}, [c for c, r in g.items]), True))
    else:
        at = len(st.slots) - 1
        idx = [at if x == "g" else x for x in op[1:]] or [at]
        if len(idx) == 2:
            other = st.slots[0]
            first = st.slots[idx[0]]
            if set(st.tangled()) & {0} or other.dims()[0] != g.dims()[0] and op[0] in ("select", "ffrag"):
                return
            if op[0] in ("cut", "intersect") and first.dims()[0] > st.slots[idx[1]].dims()[0]:
                return
            if op[0] in ("fragment", "ffrag") and not separating([other, g]):
                return
        st.apply([op[0]] + idx)
        if op[0] == "copy":
            c = st.slots[-1]
            require(not set(c.tags) & set(g.tags), "copies {} of {}", c.tags, g.tags)
    st.check()
    out.extra["operations with repeated entities"] += len(set(map(str, g.items))) < len(g.items) or op[0] in ("move", "region", "modify")
    out.outcomes.add(str(case))


VIEWS = [[0], [1], [2], [0, 1], [1, 2], [0, 2, 1]]


def shared_cases(ctx):
    roots = ["3d", "touch", "2d", "equal3", "equal2"]
    for root in roots:
        for n in range(0, 3 if ctx.quick else 4):
            for views in itertools.product(range(len(VIEWS)), repeat=n):
                yield [root, list(views)]


def shared(case, out):
    """Fragments of any list of sets, that may have entities in common."""
    root, views = case
    st = State(root)
    base = list(st.slots)
    sets = []
    for v in views:
        part = [base[k] for k in VIEWS[v]]
        obj = bg.ObjectSet(st.f, [dt for p in part for dt in p.tags], [r for p in part for r in p.obj.regions])
        sets.append(Slot(obj, [it for p in part for it in p.items]))
    ss = [s for s in sets]
    if any(not separating(ss) for _ in ss[:1]):
        return
    tags = [t for s in ss for t in s.tags]
    n0 = count(st)
    if not ss:
        require(st.f.make_fractures([], base[1].obj) == [] and count(st) == n0, "fractures are made of an empty list")
    res = st.f.fragment(*[s.obj for s in ss])
    require(isinstance(res, list) and len(res) == len(ss), "{}: {} sets returned", views, len(res))
    st.drop_entities(tags)
    oh.sync(st.f)
    st.fragments(ss, res, str(views), {})
    st.check()
    if len(set(tags)) < 2:
        require(count(st) == n0, "{}: the model has {} entities instead of {}", views, count(st), n0)
    out.outcomes.add(str(case))


def explore(ctx):
    ctx.each("shared", shared_cases(ctx), shared, chunk=8)
    ctx.each("repeated", repeated_cases(ctx), repeated, chunk=8)
    ctx.each("empty", empty_cases(ctx), empty, chunk=8)
    for root in ROOTS:
        ctx.bfs("all operations, " + root, [[root]], expand(FULL, 4), 2)
    if not ctx.quick:
        for root in ROOTS:
            ctx.bfs("main operations, " + root, [[root]], expand(DEEP, 4), 3)


def replay(case):
    {"empty": empty, "repeated": repeated, "shared": shared}.get(case["space"], history)(case["case"], core.Out())
