"""R01: the written BREP file is well formed and has the topology of the model, after every history of building, printing and writing."""
import itertools

from bgem.bspline import brep_writer as bw

from .. import core
from .. import brep_harness as bh
from ..core import require

LEVEL = "model_checking"
ASSUMPTIONS = ["identifiers of the file are judged as the reader of OCC (7.x) numbers them",
               "cyclic models (a shape inside itself) are not built"]

SQ = {"flat": [[0, 0, 0], [2, 0, 0], [2, 3, 0], [0, 3, 0]], "twist": [[0, 0, 0], [1, 0, 0], [1, 1, 1], [0, 2, -1]],
      "float": [[0.1, 1 / 3, 1e-7], [1e5, 0.25, 0.5], [1e5, 2e5, -3.75], [-7.0, 1e5, 2.5]]}


def polygon_cases(ctx):
    for n in (3, 4):
        for shape in SQ:
            for dirs in itertools.product((0, 1), repeat=n):
                for start in range(n):
                    for back in (0, 1):
                        for wrap in ("edges", "wire", "wire-", "single"):
                            yield [n, shape, list(dirs), start, back, wrap]


def loop(edges, dirs, start, back):
    """Closed chain of edge references walking the polygon from the given edge, forward or backward."""
    n = len(edges)
    order = [(start + i) % n for i in range(n)] if not back else [(start - i) % n for i in range(n)]
    return [(edges[i], 1 if dirs[i] == back else 2) for i in order]


def build_polygon(case):
    n, shape, dirs, start, back, wrap = case
    vs = [bh.vertex(p) for p in SQ[shape][:n]]
    es = []
    for i in range(n):
        a, b = vs[i], vs[(i + 1) % n]
        es.append(bh.edge(b, a) if dirs[i] else bh.edge(a, b))
    ch = loop(es, dirs, start, back)
    if wrap == "edges":
        return bh.face(ch)
    w = bh.wire(ch)
    if wrap == "single":
        return bh.face([w], single=True)
    return bh.face([(w, 2 if wrap == "wire-" else 1)])


def polygon(case, out):
    f = build_polygon(case)
    root = bh.compound([f])
    bh.Compare(bh.write(root), root)
    out.outcomes.add(tuple(case[:2]) + tuple(case[2]))


# ---------------------------------------------------------------- cube
CV = [[x, y, z] for x in (0, 1) for y in (0, 1) for z in (0, 1)]
CE = [(a, b) for a, b in itertools.combinations(range(8), 2) if sum(x != y for x, y in zip(CV[a], CV[b])) == 1]
CF = []
for ax in range(3):
    for side in (0, 1):
        f = [i for i in range(8) if CV[i][ax] == side]
        CF.append([f[0], f[1], f[3], f[2]])


class Cube:
    def __init__(self, mask, shared=True):
        self.mask, self.shared = mask, shared
        self.v = [bh.vertex(p) for p in CV] if shared else None
        self.e, self.f = {}, {}

    def edge(self, k, vs=None):
        a, b = CE[k]
        if (self.mask >> k) & 1:
            a, b = b, a
        vs = vs or self.v
        return bh.edge(vs[a], vs[b])

    def face(self, i):
        if i in self.f:
            return self.f[i]
        vs = self.v if self.shared else {j: bh.vertex(CV[j]) for j in CF[i]}
        ch = []
        for a, b in zip(CF[i], CF[i][1:] + CF[i][:1]):
            k = CE.index((min(a, b), max(a, b)))
            if self.shared:
                if k not in self.e:
                    self.e[k] = self.edge(k)
                e = self.e[k]
            else:
                e = self.edge(k, vs)
            first = CE[k][1] if (self.mask >> k) & 1 else CE[k][0]
            ch.append((e, 1 if first == a else 2))
        self.f[i] = bh.face(ch)
        return self.f[i]


def contain(kind, faces):
    if kind == "compound":
        return bh.compound(faces)
    sh = bh.shell(faces)
    if kind == "shell":
        return bh.compound([sh])
    so = bh.solid([sh])
    if kind == "solid":
        return bh.compound([so])
    if kind == "compsolid":
        return bh.compound([bh.compsolid([so])])
    if kind == "mixed":
        return bh.compound([so, faces[0], (sh, 2)])


MASKS = [0, 0xfff, 0b101010101010, 0b000111000111, 0b110100101100]


def cube_cases(ctx):
    for n in range(1, 7):
        for sub in itertools.combinations(range(6), n):
            orders = itertools.permutations(sub) if n <= ctx.pick(3, 4) else [sub, sub[::-1]]
            for o in orders:
                for m in MASKS if ctx.quick else list(MASKS) + [1 << i for i in range(12)]:
                    for shared in (1, 0):
                        for kind in ("compound", "shell", "solid", "compsolid", "mixed"):
                            if n > 2 and kind not in ("compound", "solid") and ctx.quick:
                                continue
                            yield [list(o), m, shared, kind]


def cube(case, out):
    order, mask, shared, kind = case
    c = Cube(mask, shared)
    fs = [(c.face(i), 1 + (j % 2)) for j, i in enumerate(order)]
    root = contain(kind, fs)
    bh.Compare(bh.write(root), root)
    out.outcomes.add((len(order), kind, shared))


# ---------------------------------------------------------------- loose parts
PARTS = ["vertex", "edge", "wire", "face", "shell", "solid", "compsolid"]


def pool():
    v = [bh.vertex(p) for p in ([0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1])]
    e = [bh.edge(v[0], v[1]), bh.edge(v[1], v[2]), bh.edge(v[2], v[0])]
    w = bh.wire(e)
    f = bh.face([w])
    sh = bh.shell([f])
    so = bh.solid([sh])
    return {"vertex": v[3], "edge": bh.edge(v[0], v[3]), "wire": bh.wire([e[0], e[1]]), "face": f, "shell": sh,
            "solid": so, "compsolid": bh.compsolid([so])}


def parts_cases(ctx):
    items = [(p, o) for p in PARTS for o in (1, 2, 3, 4)]
    for n in (1, 2):
        for c in itertools.product(items, repeat=n):
            yield [list(map(list, c))]
    for c in itertools.product([(p, o) for p in PARTS for o in ctx.pick((1, 2), (1, 2, 3, 4))], repeat=3):
        yield [list(map(list, c))]


def parts(case, out):
    pl = pool()
    root = bh.compound([(pl[p], o) for p, o in case[0]])
    bh.Compare(bh.write(root), root)
    out.outcomes.add(tuple(p for p, _ in case[0]))


# ---------------------------------------------------------------- refused inputs
ALLOWED = {"compound": {"compsolid", "solid", "shell", "wire", "face", "edge", "vertex"}, "compsolid": {"solid"},
           "solid": {"shell"}, "shell": {"face"}, "face": {"wire"}, "wire": {"edge"}}


def refuse_cases(ctx):
    kinds = PARTS + ["compound"]
    for p in ALLOWED:
        for c in kinds:
            for how in ("init", "append"):
                yield ["child", p, c, how]
    for n in range(0, 5):
        yield ["edge-vertices", n, "", ""]
    for c in kinds:
        if c != "vertex":
            yield ["edge-child", c, "", ""]
    for n in (3, 4):
        for sub in itertools.product((0, 1), repeat=n):
            yield ["open", n, list(sub), ""]


def refuse(case, out):
    op, a, b, how = case
    pl = pool()
    pl["compound"] = bh.compound([pl["face"]])
    if op == "child":
        make = {"compound": lambda c: bw.Compound(c), "compsolid": lambda c: bw.CompoundSolid(c), "solid": lambda c: bw.Solid(c),
                "shell": lambda c: bw.Shell(c), "face": lambda c: bw.Face(c), "wire": lambda c: bw.Wire(c)}
        child = pl[b].obj
        if a == "face":
            if b in ("wire", "edge"):
                return                     # open ones, see "open"
        try:
            if how == "init":
                make[a]([child])
            else:
                pl[a].obj.append(child)
            ok = True
        except bw.ParamError:
            ok = False
        if a == "face" and how == "append" and b == "edge":
            return
        require(ok == (b in ALLOWED[a]), "{} {} as part of {}", b, "accepted" if ok else "refused", a)
    elif op == "edge-vertices":
        try:
            bw.Edge([bw.Vertex([i, 0, 0]) for i in range(a)])
            ok = True
        except AssertionError:
            ok = False
        require(ok == (a == 2), "edge of {} vertices {}", a, "accepted" if ok else "refused")
    elif op == "edge-child":
        try:
            bw.Edge([pl[a].obj, pl["vertex"].obj])
            ok = True
        except bw.ParamError:
            ok = False
        require(not ok, "edge of {} accepted", a)
    elif op == "open":
        v = [bh.vertex(SQ["flat"][i]) for i in range(a)]
        es = [bh.edge(v[i], v[(i + 1) % a]) for i in range(a) if b[i]]
        w = bh.wire(es)
        require(bool(w.obj.is_closed()) == bool(w.flags["closed"]), "wire of edges {} closed: {}", b, w.obj.is_closed())
        if not es:
            return
        for arg in ([w.obj], [e.obj for e in es]):
            try:
                bw.Face(arg)
                ok = True
            except Exception as e:
                ok = False
            require(ok == bool(w.flags["closed"]), "face of {} wire {}", "closed" if w.flags["closed"] else "open", "accepted" if ok else "refused")
    out.outcomes.add(tuple(map(str, case)))


# ---------------------------------------------------------------- flags set by the user
def flag_cases(ctx):
    for kind in PARTS:
        for bits in itertools.product((0, 1), repeat=7):
            yield [kind, "all", list(bits), []]
        for k, l in itertools.product(range(7), repeat=2):
            for v, w in itertools.product((0, 1, "unset", True, False), repeat=2):
                yield [kind, "one", [k, v], [l, w]]
    for f in itertools.product((0, 1), repeat=3):
        for g in itertools.product((0, 1), repeat=3):
            yield ["edge", "edge", list(f), list(g)]


def flags(case, out):
    kind, how, a, b = case
    pl = pool()
    n = pl[kind]
    if how == "all":
        n.obj.set_flags(tuple(a))
        n.flags = dict(zip(n.flags, a))
    elif how == "one":
        for k, v in (a, b):
            name = list(n.flags)[k]
            if v == "unset":
                n.obj.flags.unset(name)
            else:
                n.obj.flags.set(name, v)
            n.flags[name] = int(v not in (0, "unset"))
    else:
        for x in (a, b):
            n.obj.set_edge_flags(*x)
        n.eflags = tuple(b)
    root = bh.compound([n, pl["face"]] if n is not pl["face"] else [n, pl["vertex"]])
    bh.Compare(bh.write(root), root)
    require(bool(n.obj.is_closed()) == bool(n.flags["closed"]), "{} reports closed {}", kind, n.obj.is_closed())
    out.outcomes.add(str(case))


# ---------------------------------------------------------------- references used repeatedly
def sharing_cases(ctx):
    for o in itertools.product((1, 2, 3, 4), repeat=3):
        for eo in itertools.product((1, 2), repeat=3):
            for how in ("ref", "list", "both"):
                yield [list(o), list(eo), how]


def sharing(case, out):
    """The same reference objects (and lists) are given to several shapes."""
    vo, eo, how = case
    vs = [bh.vertex(p) for p in SQ["flat"][:3]]
    vr = [bw.ShapeRef(v.obj, bh.OR[o]) for v, o in zip(vs, vo)]
    es = []
    for i in range(3):
        j = (i + 1) % 3
        a, b = (i, j) if eo[i] == 1 else (j, i)
        e = bh.Node("edge", bw.Edge([vr[a], vr[b]]), [(vs[a], 1, bh.IDENT), (vs[b], 2, bh.IDENT)], tol=1e-3, eflags=(1, 1, 0), curves=[], pcurves=[])
        es.append(e)
    er = [bw.ShapeRef(e.obj, bh.OR[o]) for e, o in zip(es, eo)]
    sp = [(e, o, bh.IDENT) for e, o in zip(es, eo)]
    lst = list(er)
    wires = []
    for _ in range(2):
        w = bh.Node("wire", bw.Wire(lst if how != "ref" else list(er)), sp)
        w.flags["closed"] = 1
        wires.append(w)
    wr = [bw.ShapeRef(w.obj, bh.OR[1 + i]) for i, w in enumerate(wires)]
    faces = [bh.Node("face", bw.Face([wr[i]]), [(wires[i], 1 + i, bh.IDENT)], tol=1e-3, surface=None, sloc=bh.IDENT) for i in range(2)]
    w2 = bh.Node("wire", None, sp)
    w2.flags["closed"] = 1
    f2 = bh.Node("face", bw.Face(lst if how != "ref" else list(er)), [(w2, 1, bh.IDENT)], tol=1e-3, surface=None, sloc=bh.IDENT)
    faces.append(f2)
    fr = [bw.ShapeRef(f.obj, bh.OR[2]) for f in faces]
    sh = [bh.Node("shell", bw.Shell(fr), [(f, 2, bh.IDENT) for f in faces]) for _ in range(2)]
    root = bh.Node("compound", bw.Compound([s.obj for s in sh] + fr + (vr if how == "both" else [])),
                   [(s, 1, bh.IDENT) for s in sh] + [(f, 2, bh.IDENT) for f in faces] +
                   ([(v, o, bh.IDENT) for v, o in zip(vs, vo)] if how == "both" else []))
    root.flags.update(free=1, orientable=0)
    require([int(r.orientation) for r in vr] == vo and [int(r.orientation) for r in er] == eo, "given references were changed")
    require(lst == er, "given list was changed")
    bh.Compare(bh.write(root), root)
    require([int(r.orientation) for r in vr] == vo and [int(r.orientation) for r in er] == eo, "given references were changed by writing")
    out.outcomes.add(str(case))


# ---------------------------------------------------------------- histories
OPS = ["write", "print", "write-face", "write-shell", "grow-shell", "grow-root", "grow-wire", "other", "write-other", "free",
       "print-shell", "flags"]


def history(case, out):
    hist = case[0]
    c = Cube(0b110100101100)
    f = [c.face(0), c.face(1)]
    sh = bh.shell([f[0]])
    root = bh.compound([sh, (c.face(2), 2)])
    w = bh.wire([c.edge(0)])
    bh.append(root, w)
    other = None
    grown = 0
    for op in hist:
        if op == "write":
            bh.Compare(bh.write(root), root)
        elif op == "print":
            str(root.obj)
        elif op == "print-shell":
            str(sh.obj)
        elif op == "write-face":
            bh.Compare(bh.write(f[0]), f[0])
        elif op == "write-shell":
            bh.Compare(bh.write(sh), sh)
        elif op == "grow-shell":
            if len(sh.children) > 3:
                return False
            bh.append(sh, (c.face(2 + len(sh.children)), 2))
        elif op == "grow-root":
            if grown:
                return False
            grown = 1
            bh.append(root, (bh.vertex([5, 5, 5]), 3))
        elif op == "grow-wire":
            if len(w.children) > 2:
                return False
            v = w.children[-1][0].children
            bh.wire_append(w, bh.edge(v[1][0], v[0][0]))
        elif op == "other":
            if other is not None:
                return False
            other = bh.compound([f[1], sh])
        elif op == "write-other":
            if other is None:
                return False
            bh.Compare(bh.write(other), other)
        elif op == "free":
            root.obj.set_free_shapes()
            for n, _, _ in root.children:
                n.flags["free"] = 1
        elif op == "flags":
            f[0].obj.set_flags((0, 1, 1, 1, 0, 1, 0))
            f[0].flags.update(checked=1, infinite=1, free=0)
        out.transitions += 1
    bh.Compare(bh.write(root), root)
    if other is not None:
        bh.Compare(bh.write(other), other)
    out.states += 1
    out.outcomes.add(tuple(hist))
    return True


def history_cases(ctx):
    for n in range(ctx.pick(4, 5) + 1):
        for h in itertools.product(OPS, repeat=n):
            if h.count("other") > 1 or ("write-other" in h and "other" not in h[:h.index("write-other")]) or h.count("grow-root") > 1:
                continue
            if any(h[i] == h[i + 1] and h[i] in ("free", "flags", "print") for i in range(n - 1)):
                continue
            yield [list(h)]


# ---------------------------------------------------------------- large models
def large_cases(ctx):
    for kind in ("solids", "shells", "faces", "loose", "chain"):
        for n in ctx.pick((2, 4), (2, 4, 6)):
            for order in ("fwd", "rev", "mix"):
                for mask in (0, 0b101):
                    yield [kind, n, order, mask]


class Lattice:
    """Cubes of a lattice sharing all vertices, edges and faces."""
    def __init__(self, mask, geometry=None):
        self.mask, self.v, self.e, self.f, self.geometry = mask, {}, {}, {}, geometry

    def vertex(self, p):
        if p not in self.v:
            self.v[p] = bh.vertex([float(x) + 0.01 * (sum(p) % 3) for x in p])
        return self.v[p]

    def edge(self, a, b):
        """-> edge, is a its first vertex"""
        key = (min(a, b), max(a, b))
        flip = bool(self.mask >> (sum(key[0]) % 3) & 1)
        if key not in self.e:
            vs = [self.vertex(x) for x in key]
            self.e[key] = bh.edge(vs[1], vs[0]) if flip else bh.edge(*vs)
            if self.geometry:
                self.geometry.edge(self.e[key])
        return self.e[key], (a == key[0]) != flip

    def face(self, p, ax):
        """Unit square with the corner p, normal to the axis."""
        if (p, ax) not in self.f:
            u, v = [[int(i == k) for i in range(3)] for k in range(3) if k != ax]
            q = [tuple(x + s * y + t * z for x, y, z in zip(p, u, v)) for s, t in ((0, 0), (1, 0), (1, 1), (0, 1))]
            ch = []
            for a, b in zip(q, q[1:] + q[:1]):
                e, fwd = self.edge(a, b)
                ch.append((e, 1 if fwd else 2))
            kw = self.geometry.face(ch, [self.v[x] for x in q]) if self.geometry else {}
            self.f[p, ax] = bh.face(ch, **kw)
        return self.f[p, ax]

    def cube(self, p):
        return [(self.face(tuple(x + s * (k == ax) for k, x in enumerate(p)), ax), 2 - s) for ax in range(3) for s in (0, 1)]


def ordered(items, how):
    items = list(items)
    if how == "rev":
        return items[::-1]
    if how == "mix":
        n = len(items)
        k = next(k for k in range(n // 2 + 1, 2 * n + 3) if all(k % d or n % d for d in range(2, n + 1)))
        return [items[i * k % n] for i in range(n)]
    return items


def large_model(case):
    kind, n, how, mask = case
    lat = Lattice(mask)
    cells = ordered(itertools.product(range(n), repeat=3), how)
    if kind == "solids":
        so = [bh.solid([bh.shell(lat.cube(p))]) for p in cells]
        return bh.compound([bh.compsolid(so[:-1]), so[-1]] if len(so) > 1 else so)
    if kind == "shells":
        return bh.compound([(bh.shell(lat.cube(p)), 1 + i % 2) for i, p in enumerate(cells)])
    if kind == "faces":
        return bh.compound([f for p in cells for f in lat.cube(p)])
    if kind == "loose":
        ch = []
        for i, p in enumerate(cells):
            q = tuple(x + (k == i % 3) for k, x in enumerate(p))
            ch.append([lambda: lat.vertex(p), lambda: lat.edge(p, q)[0], lambda: (lat.face(p, i % 3), 2), lambda: (lat.vertex(q), 3),
                       lambda: bh.wire([lat.edge(p, q)[0]])][i % 5]())
        return bh.compound(ch)
    m = 20 * n
    vs = [bh.vertex([float(i), float(i * i % 7), 0.]) for i in range(m)]
    es = [bh.edge(vs[i], vs[(i + 1) % m]) if (mask >> i % 3) & 1 == 0 else bh.edge(vs[(i + 1) % m], vs[i]) for i in range(m)]
    ch = [(e, 1 if (mask >> i % 3) & 1 == 0 else 2) for i, e in enumerate(es)]
    return bh.compound([bh.wire(ordered(ch, how)), bh.wire(ch[:m // 2]), bh.wire(ch[m // 2:])])


def large(case, out):
    """Written, written again, a part alone, and the whole again after it grows."""
    root = large_model(case)
    text = bh.write(root)
    bh.Compare(text, root)
    bh.Compare(bh.write(root), root)
    part = bh.compound([c for c in root.children if c[0].kind != "compound"][:2])
    bh.Compare(bh.write(part), part)
    bh.append(root, (bh.vertex([-1., -1., -1.]), 4))
    bh.append(root, root.children[0][:2])
    bh.Compare(bh.write(root), root)
    out.states += 3
    out.transitions += 4
    out.outcomes.add(str(case))


SPACES = {"large": large, "polygon": polygon, "cube": cube, "parts": parts, "refuse": refuse, "flags": flags, "sharing": sharing, "history": history}


def explore(ctx):
    ctx.each("polygon", polygon_cases(ctx), polygon)
    ctx.each("cube", cube_cases(ctx), cube)
    ctx.each("parts", parts_cases(ctx), parts)
    ctx.each("refuse", refuse_cases(ctx), refuse)
    ctx.each("flags", flag_cases(ctx), flags)
    ctx.each("sharing", sharing_cases(ctx), sharing)
    ctx.each("history", history_cases(ctx), history)
    ctx.each("large", large_cases(ctx), large, chunk=1)


def replay(case):
    SPACES[case["space"]](case["case"], core.Out())
