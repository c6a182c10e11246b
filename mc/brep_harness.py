"""
Independent side of the BREP checks: a strict reader of the text format (numbering locations the way OCC does),
a specification of a model kept beside the real objects, and their comparison.
"""
import io

import numpy as np
from bgem.bspline import brep_writer as bw

from .core import require, Violation

FLAGS = ["free", "modified", "checked", "orientable", "closed", "infinite", "convex"]
KINDS = {"Ve": "vertex", "Ed": "edge", "Wi": "wire", "Fa": "face", "Sh": "shell", "So": "solid", "Cs": "compsolid", "Co": "compound"}
ORIENT = {"+": 1, "-": 2, "i": 3, "e": 4}


# ----------------------------------------------------------------------------- reduced words of locations
def word_mul(a, b):
    r = list(a)
    for d, p in b:
        if r and r[-1][0] == d:
            p += r.pop()[1]
        if p:
            r.append((d, p))
    return tuple(r)


def word_pow(w, p):
    if p < 0:
        w = tuple((d, -q) for d, q in reversed(w))
    r = ()
    for _ in range(abs(p)):
        r = word_mul(r, w)
    return r


# ----------------------------------------------------------------------------- reader
class Reader:
    def __init__(self, text):
        lines = text.split("\n")
        head = [ln for ln in lines[:4] if ln.strip()]
        require(head[:2] == ["DBRep_DrawableShape", "CASCADE Topology V1, (c) Matra-Datavision"], "wrong header {}", head[:2])
        i = lines.index("CASCADE Topology V1, (c) Matra-Datavision")
        self.tok = "\n".join(lines[i + 1:]).split()
        self.pos = 0
        self.locations()
        self.curves2 = self.table("Curve2ds", lambda: self.curve(2))
        self.curves3 = self.table("Curves", lambda: self.curve(3))
        for name in ("Polygon3D", "PolygonOnTriangulations"):
            self.table(name, None)
        self.surfaces = self.table("Surfaces", self.surface)
        self.table("Triangulations", None)
        self.shapes()
        require(self.pos == len(self.tok), "{} tokens after the end", len(self.tok) - self.pos)

    def next(self):
        require(self.pos < len(self.tok), "file ends prematurely")
        self.pos += 1
        return self.tok[self.pos - 1]

    def int(self, lo=None, hi=None):
        t = self.next()
        try:
            v = int(t)
        except ValueError:
            raise Violation("integer expected, got {}".format(t))
        require((lo is None or v >= lo) and (hi is None or v <= hi), "number {} out of {}..{}", v, lo, hi)
        return v

    def real(self):
        t = self.next()
        try:
            return float(t)
        except ValueError:
            raise Violation("real expected, got {}".format(t))

    def word(self, w):
        t = self.next()
        require(t == w, "{} expected, got {}", w, t)

    def table(self, name, item):
        self.word(name)
        n = self.int(0)
        require(item is not None or n == 0, "table {} should be empty", name)
        return [item() for _ in range(n)]

    def locations(self):
        self.word("Locations")
        n = self.int(0)
        self.mats, self.words = [], [()]    # elementary matrices; numbered locations, 0 is identity
        self.loc_records = n
        for _ in range(n):
            kind = self.int(1, 2)
            if kind == 1:
                m = [[self.real() for _ in range(4)] for _ in range(3)]
                self.mats.append(m)
                w = ((len(self.mats) - 1, 1),)
            else:
                w = ()
                while True:
                    i = self.int(0, len(self.words) - 1)
                    if i == 0:
                        break
                    w = word_mul(w, word_pow(self.words[i], self.int()))
            # the reader stores neither identity nor repeated locations
            if w not in self.words:
                self.words.append(w)

    def loc(self):
        return self.words[self.int(0, len(self.words) - 1)]

    def curve(self, dim):
        require(self.int() == 7, "not a B-spline curve")
        rat, per = self.int(0, 1), self.int(0, 0)
        deg, npol, nk = self.int(1), self.int(2), self.int(2)
        poles = [[self.real() for _ in range(dim + rat)] for _ in range(npol)]
        knots = [(self.real(), self.int(1)) for _ in range(nk)]
        self.check_knots(knots, deg, npol)
        return {"dim": dim, "rat": rat, "deg": deg, "poles": poles, "knots": knots}

    def check_knots(self, knots, deg, n):
        require(sum(m for _, m in knots) == n + deg + 1, "multiplicities do not match number of poles")
        require(all(a[0] < b[0] for a, b in zip(knots, knots[1:])), "knots do not increase")

    def surface(self):
        require(self.int() == 9, "not a B-spline surface")
        ru, rv = self.int(0, 1), self.int(0, 1)
        require(ru == rv, "rational in one direction only")
        self.int(0, 0), self.int(0, 0)
        du, dv, nu, nv, nku, nkv = self.int(1), self.int(1), self.int(2), self.int(2), self.int(2), self.int(2)
        poles = [[[self.real() for _ in range(3 + ru)] for _ in range(nv)] for _ in range(nu)]
        ku = [(self.real(), self.int(1)) for _ in range(nku)]
        kv = [(self.real(), self.int(1)) for _ in range(nkv)]
        self.check_knots(ku, du, nu)
        self.check_knots(kv, dv, nv)
        return {"rat": ru, "deg": (du, dv), "poles": poles, "knots": (ku, kv)}

    def shapes(self):
        self.word("TShapes")
        n = self.int(1)
        self.shape = {}
        for i in range(n):
            k = self.next()
            require(k in KINDS, "unknown shape {}", k)
            s = {"kind": KINDS[k], "children": []}
            if k == "Ve":
                s["tol"] = self.real()
                s["point"] = [self.real() for _ in range(3)]
                require(self.int() == 0 and self.int() == 0, "unexpected representation of vertex")
            elif k == "Ed":
                s["tol"] = self.real()
                s["eflags"] = tuple(self.int(0, 1) for _ in range(3))
                s["c3"], s["c2"] = [], []
                while True:
                    t = self.int(0, 2)
                    if t == 0:
                        break
                    if t == 1:
                        s["c3"].append((self.int(1, len(self.curves3)), self.loc(), self.real(), self.real()))
                    else:
                        s["c2"].append((self.int(1, len(self.curves2)), self.int(1, len(self.surfaces)), self.loc(), self.real(), self.real()))
            elif k == "Fa":
                require(self.int() == 0, "natural restriction flag")
                s["tol"] = self.real()
                s["surf"] = self.int(1, len(self.surfaces))
                s["loc"] = self.loc()
            f = self.next()
            require(len(f) == 7 and set(f) <= {"0", "1"}, "wrong flags {}", f)
            s["flags"] = {a: int(b) for a, b in zip(FLAGS, f)}
            while True:
                t = self.next()
                if t == "*":
                    break
                require(t[0] in ORIENT and t[1:].isdigit(), "wrong reference {}", t)
                sid = int(t[1:])
                require(sid in self.shape_ids(n, i), "shape {} refers to shape {} which is not before it", n - i, sid)
                s["children"].append((sid, ORIENT[t[0]], self.loc()))
            self.shape[n - i] = s
        t = self.next()
        require(t == "+1", "root is {}", t)
        self.root_loc = self.loc()

    @staticmethod
    def shape_ids(n, i):
        return range(n - i + 1, n + 1)


# ----------------------------------------------------------------------------- evaluation of read splines (de Boor)
def flat(knots):
    return [k for k, m in knots for _ in range(m)]


def basis_values(deg, knots, t):
    k = flat(knots)
    n = len(k) - deg - 1
    t = min(max(t, k[deg]), k[n])
    j = deg
    while j < n - 1 and t >= k[j + 1]:
        j += 1
    b = [0.0] * len(k)
    b[j] = 1.0
    for d in range(1, deg + 1):
        for i in range(len(k) - d - 1):
            x = 0.0
            if k[i + d] > k[i]:
                x += (t - k[i]) / (k[i + d] - k[i]) * b[i]
            if k[i + d + 1] > k[i + 1]:
                x += (k[i + d + 1] - t) / (k[i + d + 1] - k[i + 1]) * b[i + 1]
            b[i] = x
    return np.array(b[:n])


def eval_curve(c, t):
    b = basis_values(c["deg"], c["knots"], t)
    p = np.array(c["poles"])
    if c["rat"]:
        w = b * p[:, -1]
        return w.dot(p[:, :-1]) / w.sum()
    return b.dot(p)


def eval_surf(s, u, v):
    bu, bv = basis_values(s["deg"][0], s["knots"][0], u), basis_values(s["deg"][1], s["knots"][1], v)
    w = np.outer(bu, bv)
    p = np.array(s["poles"])
    if s["rat"]:
        w = w * p[:, :, -1]
        return np.einsum("ij,ijk->k", w, p[:, :, :-1]) / w.sum()
    return np.einsum("ij,ijk->k", w, p)


# ----------------------------------------------------------------------------- specification
class Loc:
    """Location: matrix, or list of (Loc, power); None is the identity."""
    def __init__(self, matrix=None, parts=None):
        self.matrix, self.parts = matrix, parts
        if parts is not None:
            self.obj = bw.ComposedLocation([(p.obj, k) for p, k in parts])
        else:
            self.obj = bw.Location([list(r) for r in matrix]) if matrix is not None else bw.Location()

    def word(self):
        if self.parts is not None:
            w = ()
            for p, k in self.parts:
                w = word_mul(w, word_pow(p.word(), k))
            return w
        return ((id(self), 1),) if self.matrix is not None else ()

    def elems(self):
        if self.parts is not None:
            return {k: v for p, _ in self.parts for k, v in p.elems().items()}
        return {id(self): self.matrix} if self.matrix is not None else {}

    def mat(self):
        """4x4 matrix; the first component is applied first."""
        if self.parts is not None:
            m = np.eye(4)
            for p, k in self.parts:
                m = np.linalg.matrix_power(p.mat(), k).dot(m)
            return m
        return np.vstack([np.array(self.matrix, dtype=float), [0, 0, 0, 1]]) if self.matrix is not None else np.eye(4)


IDENT = Loc()


class Node:
    def __init__(self, kind, obj, children, **kw):
        self.kind, self.obj, self.children = kind, obj, list(children)   # children: (node, orient, Loc)
        self.flags = {"free": 0, "modified": 1, "checked": 0, "orientable": 1, "closed": 0, "infinite": 0, "convex": 0}
        self.__dict__.update(kw)


OR = [None, bw.Orient.Forward, bw.Orient.Reversed, bw.Orient.Internal, bw.Orient.External]


def ref(child):
    """child: Node or (Node, orient[, Loc]) -> (real reference, spec)"""
    if isinstance(child, Node):
        return child.obj, (child, 1, IDENT)
    node, o = child[0], child[1]
    loc = child[2] if len(child) > 2 else None
    if loc is None:
        return getattr(node.obj, " pmie"[o])(), (node, o, IDENT)
    return bw.ShapeRef(node.obj, OR[o], loc.obj), (node, o, loc)


def refs(children):
    r = [ref(c) for c in children]
    return [a for a, _ in r], [b for _, b in r]


def vertex(p, tol=None):
    n = Node("vertex", bw.Vertex(p) if tol is None else bw.Vertex(p, tol), [], point=list(p), tol=1e-3 if tol is None else tol)
    n.flags.update(closed=1, convex=1)
    return n


def edge(a, b, tol=None):
    ra, sp = refs([a, b])
    n = Node("edge", bw.Edge(ra) if tol is None else bw.Edge(ra, tol), [(sp[0][0], 1, sp[0][2]), (sp[1][0], 2, sp[1][2])],
             tol=1e-3 if tol is None else tol, eflags=(1, 1, 0), curves=[], pcurves=[])
    return n


def closed(edges):
    """Parity of vertices of the edges."""
    cnt = {}
    for e, _, _ in edges:
        for v, _, _ in e.children:
            cnt[id(v)] = cnt.get(id(v), 0) + 1
    return int(all(c % 2 == 0 for c in cnt.values()))


def wire(children):
    ra, sp = refs(children)
    n = Node("wire", bw.Wire(ra), sp)
    n.flags["closed"] = closed(sp)
    return n


def wire_append(w, child):
    r, s = ref(child)
    w.obj.append(r)
    w.children.append(s)
    w.flags["closed"] = closed(w.children)


def face(children, surface=None, location=None, tol=None, single=False):
    """children: wires or edges; surface: SurfSpec."""
    ra, sp = refs(children)
    kw = {}
    if surface is not None:
        kw["surface"] = surface.obj
    if location is not None:
        kw["location"] = location.obj
    if tol is not None:
        kw["tolerance"] = tol
    obj = bw.Face(ra[0] if single else ra, **kw)
    if sp and sp[0][0].kind == "edge":
        w = Node("wire", obj.childs[0].shape, sp)
        w.flags["closed"] = closed(sp)
        sp = [(w, 1, IDENT)]
    return Node("face", obj, sp, tol=1e-3 if tol is None else tol, surface=surface, sloc=location or IDENT)


def shell(children):
    ra, sp = refs(children)
    return Node("shell", bw.Shell(ra), sp)


def solid(children):
    ra, sp = refs(children)
    n = Node("solid", bw.Solid(ra), sp)
    n.flags.update(orientable=0)
    return n


def compsolid(children):
    ra, sp = refs(children)
    return Node("compsolid", bw.CompoundSolid(ra), sp)


def compound(children):
    ra, sp = refs(children)
    n = Node("compound", bw.Compound(ra), sp)
    n.flags.update(free=1, orientable=0)
    return n


def append(parent, child):
    r, s = ref(child)
    parent.obj.append(r)
    parent.children.append(s)


class Curve:
    """User given curve of the writer with its definition."""
    def __init__(self, obj, dim, rat, deg, poles, knots):
        self.obj = obj
        self.data = {"dim": dim, "rat": int(rat), "deg": deg, "poles": [list(map(float, p)) for p in poles],
                     "knots": [(float(k), int(m)) for k, m in knots]}


class Surf:
    def __init__(self, obj, rat, deg, poles, knots):
        self.obj = obj
        self.data = {"rat": int(rat), "deg": tuple(deg), "poles": [[list(map(float, p)) for p in row] for row in poles],
                     "knots": tuple([(float(k), int(m)) for k, m in kn] for kn in knots)}


def attach3(e, t_range, curve, loc=None):
    e.obj.attach_to_3d_curve(t_range, curve.obj, *([loc.obj] if loc else []))
    e.curves.append((curve, t_range, loc or IDENT))


def attach2(e, t_range, curve, surf, loc=None):
    e.obj.attach_to_2d_curve(t_range, curve.obj, surf.obj, *([loc.obj] if loc else []))
    e.pcurves.append((curve, t_range, surf, loc or IDENT))


# ----------------------------------------------------------------------------- writing and comparison
def write(node, loc=IDENT):
    s = io.StringIO()
    bw.write_model(s, node.obj, loc.obj)
    return s.getvalue()


def word_matrix(word, mats):
    """Matrix of a word in letters given by a dict; the first letter is applied first."""
    m = np.eye(4)
    for d, p in word:
        a = np.vstack([np.array(mats[d], dtype=float), [0, 0, 0, 1]])
        m = np.linalg.matrix_power(a if p > 0 else np.linalg.inv(a), abs(p)).dot(m)
    return m


class Compare:
    def __init__(self, text, root, loc=IDENT, geometry=True):
        self.r = Reader(text)
        self.ids = {}
        self.geometry = geometry
        self.letters = {}
        self.surf_ids, self.curve_ids = {}, {}
        r = self.r
        self.loc(r.root_loc, loc, "root")
        self.match(1, root)
        require(len(self.ids) == len(r.shape), "{} shapes written, model has {}", len(r.shape), len(self.ids))
        require(len(set(self.ids.values())) == len(self.ids), "two shapes written as one")
        if geometry:
            self.used()

    def loc(self, word, spec, what):
        """The read word is the word of the specification up to naming of elementary locations, consistent in the file."""
        exp = spec.word()
        require(len(word) == len(exp), "location of {} is {} factors instead of {}", what, len(word), len(exp))
        mats = spec.elems()
        for (a, p), (b, q) in zip(word, exp):
            require(p == q and self.r.mats[a] == [[float(x) for x in row] for row in mats[b]], "location of {} is wrong", what)
            require(self.letters.setdefault(("s", b), a) == a and self.letters.setdefault(("f", a), b) == b, "elementary location of {} is mixed up", what)

    def match(self, sid, node):
        if id(node) in self.ids:
            require(self.ids[id(node)] == sid, "{} written twice", node.kind)
            return
        self.ids[id(node)] = sid
        s = self.r.shape[sid]
        require(s["kind"] == node.kind, "{} written instead of {}", s["kind"], node.kind)
        require(s["flags"] == node.flags, "flags of {} are {} instead of {}", node.kind, list(s["flags"].values()), list(node.flags.values()))
        require(len(s["children"]) == len(node.children), "{} has {} children instead of {}", node.kind, len(s["children"]), len(node.children))
        for (cid, o, w), (cn, eo, loc) in zip(s["children"], node.children):
            require(o == eo, "orientation of {} in {} is {} instead of {}", cn.kind, node.kind, o, eo)
            self.loc(w, loc, "{} in {}".format(cn.kind, node.kind))
            self.match(cid, cn)
        if node.kind == "vertex":
            require(s["tol"] == node.tol, "tolerance")
            require(s["point"] == [float(x) for x in node.point], "vertex {} instead of {}", s["point"], node.point)
        elif node.kind == "edge":
            require(s["tol"] == node.tol and s["eflags"] == node.eflags, "edge data {} {}", s["tol"], s["eflags"])
            if self.geometry:
                self.edge(s, node)
        elif node.kind == "face":
            require(s["tol"] == node.tol, "tolerance of face")
            if self.geometry:
                self.face(s, node)

    # ---- geometry
    def same_object(self, table, key, fid, what):
        a = table.setdefault(("spec", id(key)), fid)
        b = table.setdefault(("file", fid), id(key))
        require(a == fid and b == id(key), "{} mixed up", what)

    def edge(self, s, node):
        pts = [np.array(v.point, dtype=float) for v, _, _ in node.children]
        require(len(s["c3"]) + len(s["c2"]) > 0, "edge without representation")
        if node.curves or not node.pcurves:
            require(len(s["c3"]) == max(1, len(node.curves)), "edge has {} 3D curves", len(s["c3"]))
        if node.curves:
            for (cid, w, t0, t1), (c, tr, loc) in zip(s["c3"], node.curves):
                require(self.r.curves3[cid - 1] == c.data, "curve of the edge is {} instead of {}", self.r.curves3[cid - 1], c.data)
                self.same_object(self.curve_ids, c, cid, "curve")
                require((t0, t1) == tuple(map(float, tr)), "parameters {} instead of {}", (t0, t1), tr)
                self.loc(w, loc, "curve of edge")
        elif s["c3"]:
            cid, w, t0, t1 = s["c3"][0]
            c = self.r.curves3[cid - 1]
            require(w == (), "location of the implicit line")
            require((t0, t1) == (c["knots"][0][0], c["knots"][-1][0]), "parameters of the line")
            for t in (0, .25, .5, 1):
                p = eval_curve(c, t0 + t * (t1 - t0))
                require(np.allclose(p, pts[0] * (1 - t) + pts[1] * t, rtol=0, atol=1e-12 * (1 + np.abs(pts).max())),
                        "line of the edge {} - {} goes through {}", pts[0].tolist(), pts[1].tolist(), p.tolist())
        for c, tr, surf, loc in node.pcurves:
            cand = [x for x in s["c2"] if self.r.curves2[x[0] - 1] == c.data and self.r.surfaces[x[1] - 1] == surf.data and x[3:] == tuple(map(float, tr))]
            require(cand, "2D curve of the edge is not written")
            self.loc(cand[0][2], loc, "2D curve")

    def face(self, s, node):
        surf = self.r.surfaces[s["surf"] - 1]
        self.loc(s["loc"], node.sloc, "surface of face")
        if node.surface is not None:
            require(surf == node.surface.data, "surface of the face is {} instead of {}", surf, node.surface.data)
            self.same_object(self.surf_ids, node.surface, s["surf"], "surface")
            return
        # implicit: edges have 2D curves consistent with their lines
        for w, _, _ in node.children:
            for e, _, _ in w.children:
                es = self.r.shape[self.ids[id(e)]]
                on = [x for x in es["c2"] if x[1] == s["surf"]]
                require(len(on) == 1, "edge has {} curves on the surface of the face", len(on))
                c2, _, loc, t0, t1 = on[0]
                require(loc == (), "location")
                pts = [np.array(v.point, dtype=float) for v, _, _ in e.children]
                scale = 1 + max(np.abs(p).max() for p in pts)
                for t in (0, .25, .5, .75, 1):
                    u, v = eval_curve(self.r.curves2[c2 - 1], t0 + t * (t1 - t0))
                    require(-1e-12 <= u <= 1 + 1e-12 and -1e-12 <= v <= 1 + 1e-12, "2D curve leaves the surface")
                    p = eval_surf(surf, u, v)
                    require(np.allclose(p, pts[0] * (1 - t) + pts[1] * t, rtol=0, atol=1e-11 * scale),
                            "2D curve of edge {} - {} goes through {}", pts[0].tolist(), pts[1].tolist(), p.tolist())

    def used(self):
        """Every curve and surface of the file is referenced by some shape (vertex representations are not written)."""
        c3 = {x[0] for s in self.r.shape.values() if s["kind"] == "edge" for x in s["c3"]}
        require(c3 == set(range(1, len(self.r.curves3) + 1)), "unused 3D curves in the file")
        c2 = {x[0] for s in self.r.shape.values() if s["kind"] == "edge" for x in s["c2"]}
        require(c2 == set(range(1, len(self.r.curves2) + 1)), "unused 2D curves in the file")


# ----------------------------------------------------------------------------- reading by OCC
_GMSH = None


def occ_module():
    global _GMSH
    import gmsh
    if _GMSH is None:
        gmsh.initialize()
        gmsh.option.setNumber("General.Terminal", 0)
        _GMSH = gmsh
    return gmsh


def occ_import(text, path):
    """Entities of the model read by OCC: list of (dim, tag), gmsh module."""
    gmsh = occ_module()
    with open(path, "w") as f:
        f.write(text)
    gmsh.clear()
    ents = gmsh.model.occ.importShapes(path, highestDimOnly=False)
    gmsh.model.occ.synchronize()
    return ents, gmsh
