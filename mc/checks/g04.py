"""G04: mesh modifications of HealMesh: every history of them makes exactly the described mesh."""
import itertools
import os

import numpy as np
from bgem.gmsh import heal_mesh, gmsh_io

from .. import core
from .. import mesh_ref as mr
from .. import mesh_harness as mh
from ..core import require

LEVEL = "model_checking"
ASSUMPTIONS = ["operations are used as by the healing algorithms: with existing nodes and elements, nodes removed only without elements"]

# two tetrahedra with a common face, their faces and some edges and points
NODES = {1: [0., 0., 0.], 2: [1., 0., 0.], 3: [0., 1., 0.], 5: [0., 0., 1.], 9: [1., 1., 1.]}
ELS = {2: (4, [7, 1], [1, 2, 3, 5]), 3: (4, [8, 1], [2, 3, 5, 9]), 10: (2, [2, 1], [1, 2, 3]), 11: (2, [3, 1], [2, 3, 5]),
       12: (2, [4, 1], [9, 3, 2]), 20: (1, [5, 1], [1, 2]), 21: (1, [6, 1], [2, 3]), 30: (15, [9, 1], [1]), 31: (15, [9, 2], [9])}
NEW = [(4, [50, 1], [1, 3, 5, 9]), (4, [51, 1], [5, 3, 2, 1]), (2, [52, 1], [1, 9, 5]), (1, [53, 1], [2, 1]), (15, [54, 1], [5])]
SHIFT = [[0.5, 0.25, 0.], [0., 0., -3.]]


def ops(quick):
    res = [["merge", a, b] for a, b in itertools.permutations(sorted(NODES), 2)]
    res += [["move", n, k] for n in sorted(NODES) for k in range(len(SHIFT))][::(3 if quick else 1)]
    res += [["rm", k] for k in range(len(ELS))]
    res += [["add", k] for k in range(len(NEW))]
    res += [["node", 0], ["addlast", 0], ["rmnode", 0], ["reset", 0], ["dupl", 0], ["same", 0]]
    return res


class Model:
    def __init__(self, nodes=NODES, els=ELS):
        self.nodes = {n: list(p) for n, p in nodes.items()}
        self.els = {e: (t, list(tg), list(n)) for e, (t, tg, n) in els.items()}
        self.max_e, self.max_n = max(els), max(nodes)
        self.first = set(els)
        self.touched = set()

    def with_nodes(self, ids):
        return [e for e, (t, tg, n) in self.els.items() if set(ids) <= set(n)]

    def add(self, el):
        if any(self.els[e][0] == el[0] for e in self.with_nodes(el[2])):
            return None
        self.max_e += 1
        self.els[self.max_e] = el
        self.touched.add(self.max_e)
        return self.max_e

    def content(self):
        return sorted((t, tuple(tg), tuple(n)) for t, tg, n in self.els.values())


def step(mod, h, op):
    """Apply op on both; False if it is not enabled."""
    kind = op[0]
    old = dict(h.mesh.elements)
    if kind == "merge":
        a, b = op[1:]
        if a not in mod.nodes or b not in mod.nodes:
            return False
        for e in mod.with_nodes([a, b]):
            del mod.els[e]
        mod.nodes[b] = [(x + y) / 2 for x, y in zip(mod.nodes[a], mod.nodes[b])]
        mod.touched |= set(mod.with_nodes([b]))
        for e in mod.with_nodes([a]):
            t, tg, n = mod.els.pop(e)
            mod.add((t, tg, [b if i == a else i for i in n]))
        del mod.nodes[a]
        require(h.merge_node(a, b) == b, "merge_node returned an other node")
    elif kind == "move":
        if op[1] not in mod.nodes:
            return False
        p = [x + d for x, d in zip(mod.nodes[op[1]], SHIFT[op[2]])]
        mod.nodes[op[1]] = p
        mod.touched |= set(mod.with_nodes([op[1]]))
        h.move_node(op[1], np.array(p))
    elif kind == "rm":
        ids = sorted(mod.els)
        if op[1] >= len(ids):
            return False
        # the same element by content (ids of elements substituted in a merge depend on their order)
        t, tg, n = mod.els.pop(ids[op[1]])
        eid = [e for e, el in h.mesh.elements.items() if el[0] == t and list(el[1]) == tg and list(el[2]) == n]
        require(len(eid) >= 1, "element {} is missing", (t, tg, n))
        h.remove_element(eid[0])
        require(eid[0] not in h.mesh.elements, "removed element stays")
    elif kind == "add":
        el = NEW[op[1]]
        if any(i not in mod.nodes for i in el[2]):
            return False
        exp = mod.add((el[0], list(el[1]), list(el[2])))
        got = h.add_element((el[0], list(el[1]), list(el[2])))
        require(got == exp, "added element has id {} instead of {}", got, exp)
    elif kind == "node":
        if len(mod.nodes) > 6:
            return False
        mod.max_n += 1
        mod.nodes[mod.max_n] = [0.5, 0.5, 0.5]
        got = h.add_node(np.array([0.5, 0.5, 0.5]))
        require(got == mod.max_n, "new node has id {} instead of {}", got, mod.max_n)
    elif kind == "addlast":
        if mod.max_n not in mod.nodes or 2 not in mod.nodes or mod.max_n == 9:
            return False
        el = (1, [60, 1], [mod.max_n, 2])
        exp = mod.add(el)
        got = h.add_element((1, [60, 1], [mod.max_n, 2]))
        require(got == exp, "added element has id {} instead of {}", got, exp)
    elif kind == "rmnode":
        free = [n for n in sorted(mod.nodes) if not mod.with_nodes([n])]
        busy = [n for n in sorted(mod.nodes) if mod.with_nodes([n])]
        if busy:
            try:
                h.remove_node(busy[0])
            except AssertionError:
                pass
            else:
                require(False, "node {} with elements was removed", busy[0])
        if not free:
            return False
        del mod.nodes[free[0]]
        h.remove_node(free[0])
    elif kind == "reset":
        got = h.reset_modified()
        have = {ekey(h.mesh.elements[e]) for e in got if e in h.mesh.elements}
        need = {ekey(mod.els[e]) for e in mod.touched if e in mod.els}
        require(need <= have, "changed elements {} not reported in {}", need - have, have)
        mod.touched = set()
        require(not h.modified_elements, "modified elements stay after reset")
    elif kind == "same":
        # elements common to each pair, triple of nodes
        for k in (1, 2, 3):
            for c in itertools.combinations(sorted(mod.nodes), k):
                got = sorted((h.mesh.elements[e][0], tuple(h.mesh.elements[e][2])) for e in h.common_elements(list(c)))
                exp = sorted((mod.els[e][0], tuple(mod.els[e][2])) for e in mod.with_nodes(c))
                require(got == exp, "elements with nodes {} are {} instead of {}", c, got, exp)
    elif kind == "dupl":
        for eid, el in list(h.mesh.elements.items()):
            e = h._make_element(eid)
            exp = sum(x[0] == el[0] and set(x[2]) == set(el[2]) for x in mod.els.values())
            require(len(h.is_duplicate_el(e)) == exp, "duplicates of {}: {}", el, h.is_duplicate_el(e))
            require(e.eid == eid and e.type == el[0] and list(e.node_ids) == list(el[2]), "element {}", e)
            require(np.array_equal(e.shape.nodes, np.array([h.mesh.nodes[n] for n in el[2]])), "nodes of element {}", e)
    return True


def run(hist):
    """Fresh objects after the history: model, HealMesh or None."""
    m = gmsh_io.GmshIO()
    m.nodes = {n: list(p) for n, p in NODES.items()}
    m.elements = {e: (t, list(tg), list(n)) for e, (t, tg, n) in ELS.items()}
    h = heal_mesh.HealMesh(m, "some.msh")
    mod = Model()
    for op in hist:
        if not step(mod, h, op):
            return None
        compare(mod, h)
    return mod, h


def ekey(el):
    return (el[0], el[1][0], tuple(sorted(int(i) for i in el[2])))


def compare(mod, h):
    m = h.mesh
    require(set(m.nodes) == set(mod.nodes), "nodes are {} instead of {}", sorted(m.nodes), sorted(mod.nodes))
    for n in m.nodes:
        require(np.allclose(m.nodes[n], mod.nodes[n], rtol=1e-13, atol=1e-13), "node {} is at {} instead of {}", n, m.nodes[n], mod.nodes[n])
    got = sorted((t, tuple(tg), tuple(int(i) for i in n)) for t, tg, n in m.elements.values())
    require(got == mod.content(), "elements are {} instead of {}", got, mod.content())
    untouched = set(mod.els) & mod.first
    for e in untouched:
        require(e in m.elements and m.elements[e][1][0] == mod.els[e][1][0], "element {} has an other id", e)
    require(mh.incidence(h) is None, "elements of nodes are wrong: {}", mh.incidence(h))
    # changed elements, by content
    have = {ekey(m.elements[e]) for e in h.modified_elements if e in m.elements}
    need = {ekey(mod.els[e]) for e in mod.touched if e in mod.els}
    require(need <= have, "changed elements {} not noted, noted are {}", need - have, have)


# ---------------------------------------------------------------- larger meshes
def box_mesh(kind, n, ids):
    """Box of n^3 cubes of 6 tetrahedra (n^2 squares of two triangles), with its border, edges of a corner and points."""
    d3 = kind == "tet"
    m = n + 1
    pos = [(i, j, k) for k in range(m if d3 else 1) for j in range(m) for i in range(m)]
    num = {"seq": lambda i: i + 1, "gaps": lambda i: 5 * i + 2 * (i % 3) + 1, "desc": lambda i: 3 * len(pos) * 8 - 3 * i, "big": lambda i: 10 ** 7 + 11 * i}[ids]
    nid = {p: num(i) for i, p in enumerate(pos)}
    nodes = {nid[p]: [p[0] + 0.125 * (p[1] % 2), p[1] * 1.0, p[2] + 0.0625 * p[0]] for p in pos}
    els = []
    if d3:
        for i, j, k in itertools.product(range(n), repeat=3):
            for perm in itertools.permutations(range(3)):
                c = [i, j, k]
                t = [tuple(c)]
                for ax in perm:
                    c[ax] += 1
                    t.append(tuple(c))
                els.append((4, [1 + (i + j) % 3, 1], [nid[x] for x in t]))
    for i, j in itertools.product(range(n), repeat=2):
        for k in ((0, n) if d3 else (0,)):
            a, b, c, d = (nid[i + x, j + y, k] for x, y in ((0, 0), (1, 0), (1, 1), (0, 1)))
            els += [(2, [10 + k, 1], [a, b, c]), (2, [10 + k, 1], [a, c, d])]
    els += [(1, [20, 1], [nid[i, 0, 0], nid[i + 1, 0, 0]]) for i in range(n)] + [(15, [30, 1], [nid[0, 0, 0]]), (15, [31, 1], [nid[n, n, 0]])]
    return nodes, {num(i) + 4: e for i, e in enumerate(els)}, [nid[p] for p in pos]


def large_cases(ctx):
    for kind, n in ctx.pick((("tet", 2), ("tet", 3), ("tri", 6), ("tri", 12)), (("tet", 2), ("tet", 3), ("tet", 5), ("tri", 6), ("tri", 12), ("tri", 25))):
        for ids in ("seq", "gaps", "desc", "big"):
            for start, stride in ((0, 7), (3, 13), (11, 29)):
                yield [kind, n, ids, start, stride]


def large(case, out):
    """Merge, move, remove and add all over a larger mesh; every few steps the whole mesh is compared."""
    kind, n, ids, start, stride = case
    nodes, els, order = box_mesh(kind, n, ids)
    m = gmsh_io.GmshIO()
    m.nodes = {i: list(p) for i, p in nodes.items()}
    m.elements = {e: (t, list(tg), list(x)) for e, (t, tg, x) in els.items()}
    h = heal_mesh.HealMesh(m, "some.msh")
    mod = Model(nodes, els)
    compare(mod, h)
    count = 24
    for k in range(count):
        live = [i for i in order if i in mod.nodes]
        a = live[(start + k * stride) % len(live)]
        star = sorted({i for e in mod.with_nodes([a]) for i in mod.els[e][2]} - {a})
        op = ("merge", "move", "merge", "rm", "node", "merge", "reset", "move")[k % 8]
        if op == "merge":
            b = star[(k * 5) % len(star)] if star and k % 4 else live[(start + k * stride + 9) % len(live)]
            if b == a:
                continue
            step(mod, h, ["merge", a, b])
        elif op == "move":
            step(mod, h, ["move", a, k % 2])
        elif op == "rm":
            # an element of the node
            con = mod.with_nodes([a])
            if con:
                step(mod, h, ["rm", sorted(mod.els).index(con[k % len(con)])])
        elif op == "node":
            mod.max_n += 1
            mod.nodes[mod.max_n] = [0.5, 0.25 * k, -1.]
            require(h.add_node(np.array(mod.nodes[mod.max_n])) == mod.max_n, "id of a new node is not {}", mod.max_n)
            order.append(mod.max_n)
            if len(star) > 2:
                for el in ((4, [70, 1], [mod.max_n] + star[:3]), (2, [71, 1], [star[0], mod.max_n, a]), (1, [72, 1], [a, star[-1]])):
                    exp = mod.add((el[0], list(el[1]), list(el[2])))
                    got = h.add_element((el[0], list(el[1]), list(el[2])))
                    require(got == exp, "added element {} has id {} instead of {}", el, got, exp)
        else:
            step(mod, h, ["reset", 0])
        out.transitions += 1
        if k % 6 == 5 or k < 2:
            compare(mod, h)
            for b in star[:4]:
                if a in mod.nodes and b in mod.nodes:
                    got = sorted((h.mesh.elements[e][0], tuple(h.mesh.elements[e][2])) for e in h.common_elements([a, b]))
                    exp = sorted((mod.els[e][0], tuple(mod.els[e][2])) for e in mod.with_nodes((a, b)))
                    require(got == exp, "elements with nodes {} are {} instead of {}", (a, b), got, exp)
    compare(mod, h)
    out.states += count
    out.outcomes.add(core.canon_hash(mod.content())[:6])


def canon(mod, h):
    return (sorted(mod.nodes.items()), mod.content(), sorted(mod.touched), mod.max_e, mod.max_n)


def explore(ctx):
    alphabet = ops(ctx.quick)

    def expand(hist, out):
        res = []
        for op in alphabet:
            r = None
            try:
                with core.watchdog():
                    r = run(list(hist) + [op])
            except core.Violation as e:
                out.violations.append((len(hist), "history:" + str(list(hist) + [op]), e.message, {"space": "history", "case": list(hist) + [op]}))
                continue
            except Exception as e:
                out.violations.append((len(hist), "history:" + str(list(hist) + [op]), core.describe(e), {"space": "history", "case": list(hist) + [op]}))
                continue
            if r is None:
                continue
            out.transitions += 1
            out.traces += 1
            out.extra["op:" + op[0]] += 1
            res.append((canon(*r), op))
        return res
    ctx.bfs("history", [[]], expand, ctx.pick(3, 4), chunk=16)
    ctx.each("file", file_cases(ctx), files, chunk=8)
    ctx.each("large", large_cases(ctx), large, chunk=1)


def file_cases(ctx):
    al = ops(True)
    return [[a] for a in al] + [[a, b] for a in al[::2] for b in al[::3]]


def files(hist, out):
    """Healed mesh is written under its name and read back; statistics file is the statistics."""
    path = mr.scratch("heal") + ".x.msh"
    r = run(hist)
    if r is None:
        return
    mod, h0 = r
    if not mod.els:
        return
    with open(path, "w") as f:
        h0.mesh.write_ascii(f)
    h = heal_mesh.HealMesh.read_mesh(path)
    exp = path[:-4] + "_healed.msh"
    if os.path.exists(exp):
        os.remove(exp)
    h.write()
    require(os.path.exists(exp), "healed mesh was not written to {}", exp)
    back = gmsh_io.GmshIO(exp)
    require(sorted((t, tuple(tg), tuple(n)) for t, tg, n in back.elements.values()) == mod.content(), "healed mesh written has other elements")
    require({n: list(p) for n, p in back.nodes.items()} == {n: [float(x) for x in p] for n, p in h0.mesh.nodes.items()}, "healed mesh written has other nodes")
    h.write(path + "o")
    require(open(path + "o").read() == open(exp).read(), "file given for writing differs")
    h.stats_to_yaml(path + "y", el_tol=0.3)
    import yaml
    with np.errstate(all="ignore"):
        st = yaml.safe_load(open(path + "y"))
        hist_, bins, bad = h.quality_statistics(0.3)
    require(set(st) == set(hist_), "statistics {}", list(st))
    for q in st:
        require(st[q]["hist"] == [int(x) for x in hist_[q]] and st[q]["bins"] == [float(x) for x in bins]
                and st[q]["bad_elements"] == bad[q] and st[q]["bad_el_tol"] == 0.3, "statistics file {}", st[q])
    out.outcomes.add(str(mod.content()))


def replay(case):
    if case["space"] == "file":
        files(case["case"], core.Out())
    elif case["space"] == "large":
        large(case["case"], core.Out())
    else:
        run(case["case"])
