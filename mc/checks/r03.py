"""R03: locations given for the model, its parts and geometry arrive in the file and at the reader, however they are composed and reused."""
import itertools
import json
import os

import numpy as np
from bgem.bspline import brep_writer as bw

from .. import core
from .. import brep_harness as bh
from ..core import require

LEVEL = "model_checking"
ASSUMPTIONS = ["elementary transformations are rigid (what the reader accepts)",
               "factors of a composed location are applied in the order they are given, as the reader of OCC does"]

MATS = {"T": [[1, 0, 0, 5], [0, 1, 0, 0], [0, 0, 1, 0]], "U": [[1, 0, 0, 0.5], [0, 1, 0, 7.25], [0, 0, 1, -3]],
        "R": [[0, -1, 0, 1], [1, 0, 0, 0], [0, 0, 1, 2]], "I": [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0]]}
NAMES = ["-", "T", "U", "R", "I"]


class Pool:
    """Locations named by nested lists; the same name is the same object."""
    def __init__(self):
        self.made = {}

    def get(self, name):
        key = str(name)
        if key not in self.made:
            if name == "-":
                self.made[key] = bh.Loc()
            elif isinstance(name, str):
                self.made[key] = bh.Loc(MATS[name[0]])
            else:
                self.made[key] = bh.Loc(parts=[(self.get(n), p) for n, p in name])
        return self.made[key]


def composed(names, powers, n):
    for c in itertools.product(names, repeat=n):
        for p in itertools.product(powers, repeat=n):
            yield [list(x) for x in zip(c, p)]


def tri(x):
    v = [bh.vertex(p) for p in ([x, 0, 0], [x + 1, 0, 0], [x, 1, 0.5])]
    return bh.face([bh.edge(v[i], v[(i + 1) % 3]) for i in range(3)])


def place_cases(ctx):
    simple = NAMES
    one = list(composed(["-", "T", "R"], (-1, 0, 1, 2), 1))
    two = list(composed(["-", "T", "R"], (-1, 1, 2), 2)) + list(composed(["T", "U"], (0, 1, -2), 2))
    nest = [[[c, p]] for c in (two[4], two[13], [["T", 1], ["T", -1]], [["R", 1], ["T", 1]]) for p in (1, -1, 2)]
    nest += [[[[["T", 1], ["R", 1]], 1], [[["R", -1], ["T", -1]], 1]], [[[["T", 1], ["R", 1]], 1], [[["T", 1], ["R", 1]], -1]],
             [["T", 1], [[["T", -1], ["U", 1]], 1]], [["T", 2], [[["T", 1]], 1], ["T0", 1]]]
    allc = simple + one + two + nest
    # one part
    for a in allc:
        yield ["-", [a], "once"]
        yield [a, ["-"], "once"]
        yield ["U", [a], "once"]
        yield [a, ["U"], "once"]
    # two parts and the whole
    short = simple + one[3:] + nest[:6:2] + nest[-4:]
    for a in short:
        for b in short:
            for r in ("-", "T", "U") if ctx.quick else short:
                yield [r, [a, b], "once"]
    for a in simple + nest[-4:]:
        for b in simple:
            for r in simple:
                for h in ("twice", "other", "same-face"):
                    yield [r, [a, b], h]
    if not ctx.quick:
        for a in two:
            for b in two:
                yield ["U", [a, b], "once"]


def place(case, out):
    rname, names, how = case
    pool = Pool()
    locs = [pool.get(n) for n in names]
    rloc = pool.get(rname)
    faces = [tri(3.0 * i) for i in range(len(names))]
    if how == "same-face":
        faces = [faces[0]] * len(names)
    root = bh.compound([(f, 1, l) for f, l in zip(faces, locs)])
    if how == "twice":
        bh.Compare(bh.write(root, pool.get("U")), root, pool.get("U"))
    elif how == "other":
        o = bh.compound([(faces[-1], 2, pool.get("R")), (faces[0], 1, rloc)])
        bh.Compare(bh.write(o, locs[0]), o, locs[0])
    text = bh.write(root, rloc)
    bh.Compare(text, root, rloc)
    ents, gmsh = bh.occ_import(text, os.path.join(os.environ.get("MC_SCRATCH", "/tmp"), "loc-{}.brep".format(os.getpid())))
    tags = [t for d, t in ents if d == 2]
    if how == "same-face" and len({l.word() for l in locs}) < len(locs):
        require(len(tags) >= 1, "nothing read")
        tags = tags[:1]
    else:
        require(len(tags) == len(faces), "OCC read {} faces", len(tags))
    for t, f, l in zip(tags, faces, locs):
        pts = np.array([f.children[0][0].children[i][0].children[0][0].point for i in range(3)], dtype=float)
        m = rloc.mat().dot(l.mat())
        exp = m.dot(list(pts.mean(axis=0)) + [1])[:3]
        c = gmsh.model.occ.getCenterOfMass(2, t)
        require(np.allclose(c, exp, rtol=0, atol=1e-6), "face is at {} instead of {}", list(c), exp.tolist())
    out.outcomes.add(str(case))


# ---------------------------------------------------------------- locations of geometry
def geom_cases(ctx):
    names = ["-", "T", "R", [["T", 1], ["R", -1]], [["T", 1]], [["-", 1]]]
    for where in ("edge3", "edge2", "surface"):
        for a in names:
            for b in names:
                for h in range(2):
                    yield [where, a, b, h]
    for rows in (2, 3, 4):
        for cols in (3, 4, 5):
            for bad in ("", "x", None):
                yield ["matrix", rows, cols, bad]


def geom(case, out):
    where, a, b, h = case
    if where == "matrix":
        m = [[1.0] * b for _ in range(a)]
        if h != "":
            m[-1][-1] = h
        try:
            bw.Location(m)
            ok = True
        except bw.ParamError:
            ok = False
        require(ok == (a == 3 and b == 4 and h == ""), "matrix {} {}", m, "accepted" if ok else "refused")
        return
    pool = Pool()
    la, lb = pool.get(a), pool.get(b)
    kn = [(0., 2), (1., 2)]
    sp = [[[0, 0, 0], [0, 1, 0]], [[1, 0, 0], [1, 1, 1]]]
    v = [bh.vertex(p) for p in ([0, 0, 0], [1, 0, 0], [0, 1, 0])]
    es = [bh.edge(v[i], v[(i + 1) % 3]) for i in range(3)]
    if where == "surface":
        sf = bh.Surf(bw.Surface(sp, (kn, kn), False, (1, 1)), 0, (1, 1), sp, (kn, kn))
        root = bh.compound([(bh.face(es, surface=sf, location=la), 1, lb)])
    else:
        if where == "edge3":
            for e, l in zip(es, (la, lb)):
                p = [[float(x) for x in w[0].point] for w in e.children]
                bh.attach3(e, (0., 1.), bh.Curve(bw.Curve3D(p, kn, False, 1), 3, 0, 1, p, kn), l)
        else:
            sf = bh.Surf(bw.Surface(sp, (kn, kn), False, (1, 1)), 0, (1, 1), sp, (kn, kn))
            for e, l in zip(es, (la, lb)):
                p = [[0., 0.], [1., float(l is la)]]
                bh.attach2(e, (0., 1.), bh.Curve(bw.Curve2D(p, kn, False, 1), 2, 0, 1, p, kn), sf, l)
        root = bh.compound([(es[0], 2, lb), es[1]])
    if h:
        bh.write(root, pool.get("R"))
    bh.Compare(bh.write(root, la if h else bh.IDENT), root, la if h else bh.IDENT)
    out.outcomes.add(str(case))


# ---------------------------------------------------------------- numbers that need all their digits
NUMBERS = [1 / 3, -0.1, 1234567.8125, -123456789.12345679, 299792.4580000001, 1e-8, -3.3333e-9, 1.5e-17, 6.02e23, 0.30000000000000004, 7, 12345678901]
ANGLES = [1e-9, 0.1, 1 / 3, 1.0, 2.5]


def digits_cases(ctx):
    for kind in ("list", "array"):
        for i in range(len(NUMBERS)):
            for row in range(3):
                yield ["shift", kind, row, NUMBERS[i]]
        for a in ANGLES:
            for ax in range(3):
                yield ["turn", kind, ax, a]


def digits(case, out):
    what, kind, i, x = case
    m = [[1., 0., 0., 1.], [0., 1., 0., 2.], [0., 0., 1., 3.]]
    if what == "shift":
        m[i][3] = x
    else:
        a, b = [q for q in range(3) if q != i]
        m[a][a] = m[b][b] = float(np.cos(x))
        m[a][b], m[b][a] = -float(np.sin(x)), float(np.sin(x))
    name = json.dumps(m)
    loc = bh.Loc(np.array(m) if kind == "array" else m)
    root = bh.compound([(tri(0), 1, loc), tri(3)])
    bh.Compare(bh.write(root, loc), root, loc)
    out.outcomes.add(name)


# ---------------------------------------------------------------- many locations
def many_cases(ctx):
    for n in ctx.pick((12, 60, 150), (12, 60, 150, 400)):
        for kind in ("simple", "chains", "nested", "shared", "powers"):
            for h in range(2):
                yield [n, kind, h]


def many(case, out):
    n, kind, h = case
    mats = []
    for i in range(n):
        a = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, -1, 0], [1, 0, 0], [0, 0, 1]], [[1, 0, 0], [0, 0, -1], [0, 1, 0]]][i % 3]
        mats.append(bh.Loc([list(map(float, r)) + [float(c)] for r, c in zip(a, (i, i * i % 17, -i / 8))]))
    if kind == "simple":
        locs = mats
    elif kind == "chains":
        locs = [bh.Loc(parts=[(mats[(i * 5 + j) % n], 1 if (i + j) % 3 else -1) for j in range(1 + i % 11)]) for i in range(n)]
    elif kind == "nested":
        locs = [mats[0]]
        for i in range(1, n):
            locs.append(bh.Loc(parts=[(locs[i - 1] if i % 9 else mats[i // 9], 1), (mats[i], -1 if i % 4 == 0 else 1)]))
    elif kind == "shared":
        locs = [mats[i // 10] if i % 2 else bh.Loc(parts=[(mats[i // 10], 1), (mats[i // 20], 1 + i % 3)]) for i in range(n)]
    else:
        locs = [bh.Loc(parts=[(mats[i % 7], (i * 3) % 19 - 9)]) for i in range(n)]
    faces = [tri(3.0 * i) for i in range(min(n, 5))]
    ch = [(faces[i % len(faces)], 1 + i % 2, l) for i, l in enumerate(locs)]
    root = bh.compound(ch)
    if h:
        o = bh.compound(ch[::-1][:n // 2])
        bh.Compare(bh.write(o, locs[-1]), o, locs[-1])
    top = locs[n // 2] if h else bh.IDENT
    text = bh.write(root, top)
    bh.Compare(text, root, top)
    bh.Compare(bh.write(root, top), root, top)
    out.outcomes.add(str(case))


SPACES = {"many": many, "digits": digits, "place": place, "geom": geom}


def explore(ctx):
    ctx.each("place", place_cases(ctx), place)
    ctx.each("geom", geom_cases(ctx), geom)
    ctx.bound("shifts by {} numbers and turns by {} angles needing all their digits".format(len(NUMBERS), len(ANGLES)))
    ctx.each("digits", digits_cases(ctx), digits)
    ctx.each("many", many_cases(ctx), many, chunk=1)


def replay(case):
    SPACES[case["space"]](case["case"], core.Out())
