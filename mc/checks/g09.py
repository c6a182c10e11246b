"""G09: option objects: histories of assignments against a dictionary of all gmsh options of the two groups."""
import enum
import itertools

import gmsh
import numpy as np
from bgem.gmsh import options

from .. import core
from .. import occ_harness as oh
from ..core import require

LEVEL = "model_checking"
ASSUMPTIONS = ["the options of gmsh keep the values that are set"]

# documented options and their default set at construction (None: left alone)
TABLE = {
    "Mesh": {"Algorithm": 2, "Algorithm3D": 1, "ToleranceInitialDelaunay": 1e-12, "ToleranceEdgeLength": 0, "AngleToleranceFacetOverlap": 0.1,
             "AnisoMax": 1e-10, "CharacteristicLengthFromPoints": 1, "CharacteristicLengthFromCurvature": 1,
             "CharacteristicLengthExtendFromBoundary": None, "CharacteristicLengthMin": None, "CharacteristicLengthMax": None,
             "CharacteristicLengthFactor": None, "QualityType": 2, "MinimumCirclePoints": 6, "MinimumCurvePoints": 6,
             "RandomFactor": 1e-9, "RandomFactor3D": 1e-12},
    "Geometry": {"Tolerance": 1e-8, "ToleranceBoolean": 0.0, "AutoCoherence": 1, "OCCFixDegenerated": 0, "OCCFixSmallEdges": 0, "OCCFixSmallFaces": 0,
                 "OCCBooleanPreserveNumbering": 1, "OCCSewFaces": 0},
}
# numbers of the methods in the reference manual of gmsh
NUMBERS = {"Algorithm2d": {"MeshAdapt": 1, "Automatic": 2, "Delaunay": 5, "FrontalDelaunay": 6, "BAMG": 7, "FrontalDelaunayQuads": 8, "ParalelogramsPacking": 9},
           "Algorithm3d": {"Delaunay": 1, "Frontal": 4, "MMG3D": 7, "RTree": 9, "HXT": 10},
           "QualityType": {"SignedInversConditionNumber": 0, "SignedInverseGradientError": 1, "Gamma": 2, "Distorsion": 3}}
METHODS = [["Algorithm2d", "Algorithm"], ["Algorithm3d", "Algorithm3D"], ["QualityType", "QualityType"]]
ENUMS = {"Algorithm": [options.Algorithm2d.MeshAdapt, options.Algorithm2d.FrontalDelaunay, 8], "Algorithm3D": [options.Algorithm3d.Frontal, options.Algorithm3d.HXT],
         "QualityType": [options.QualityType.SignedInversConditionNumber, 1]}
FLAGS = {"CharacteristicLengthFromPoints", "CharacteristicLengthFromCurvature", "OCCFixDegenerated", "OCCFixSmallEdges", "OCCFixSmallFaces", "OCCBooleanPreserveNumbering", "OCCSewFaces"}
BAD = [("Mesh", "NoSuchOption", 1), ("Mesh", "algorithm", 2), ("Mesh", "Tolerance", 0.5), ("Geometry", "Algorithm", 1), ("Geometry", "", 1), ("Mesh", "RandomFactor", "text"),
       ("Mesh", "Algorithm", None), ("Geometry", "Tolerance", [1]), ("Geometry", "prefix_", 1), ("Mesh", "CharacteristicLengthMin", "1")]


def values(name):
    if name in ENUMS:
        return ENUMS[name]
    if name in FLAGS:
        return [True, False]
    if name in ("CharacteristicLengthExtendFromBoundary", "AutoCoherence"):
        return [0, 2]
    if name in ("MinimumCirclePoints", "MinimumCurvePoints"):
        return [3, 9]
    return [0.25, 3, float(np.float64(1e-3))]


def alphabet():
    res = [["new", g] for g in TABLE]
    for g in TABLE:
        for n in TABLE[g]:
            for k in range(len(values(n))):
                res.append(["set", g, n, k])
    res += [["bad", k] for k in range(len(BAD))]
    return res


def snapshot():
    return {g + "." + n: gmsh.option.getNumber(g + "." + n) for g in TABLE for n in TABLE[g]}


def history(case, out):
    f = oh.factory()
    try:
        model = snapshot()
        objs = {}
        for op in case:
            if op[0] == "new" or (op[0] == "set" and op[1] not in objs) or (op[0] == "bad" and BAD[op[1]][0] not in objs):
                g = BAD[op[1]][0] if op[0] == "bad" else op[1]
                objs[g] = getattr(options, g)()
                model.update({g + "." + n: float(v) for n, v in TABLE[g].items() if v is not None})
                compare(model, [op, "constructor"])
            if op[0] == "set":
                v = values(op[2])[op[3]]
                setattr(objs[op[1]], op[2], v)
                model[op[1] + "." + op[2]] = float(v)
            elif op[0] == "bad":
                g, n, v = BAD[op[1]]
                try:
                    setattr(objs[g], n, v)
                except (AssertionError, ValueError, AttributeError, TypeError, KeyError):
                    pass
                else:
                    require(False, "assignment of {!r} to {}.{} is accepted", v, g, n)
            compare(model, op)
            out.transitions += 1
    finally:
        del f
    out.states += 1
    out.outcomes.add(str(sorted(model.items())))


def compare(model, op):
    now = snapshot()
    diff = {k: (now[k], model[k]) for k in model if now[k] != model[k]}
    require(not diff, "after {}: options (value, expected) {}", op, diff)


def cases(ctx):
    a = alphabet()
    for x in a:
        yield [x]
    for x in itertools.product(a, repeat=2):
        yield list(x)
    if ctx.quick:
        core_ops = [x for k, x in enumerate(a) if k % 6 == 0]
    else:
        core_ops = a[::2]
    for x in itertools.product(core_ops, repeat=3):
        yield list(x)


def two_cases(ctx):
    """Histories of one option set by two objects of the group, directly in gmsh and by a new object."""
    ops = [[w, k] for w in ("a", "b", "gmsh") for k in (0, 1)] + [["new", "a"], ["new", "b"]]
    for g in TABLE:
        for n in TABLE[g]:
            for h in itertools.product(ops, repeat=ctx.pick(3, 4)):
                yield [g, n, [list(x) for x in h]]


def two(case, out):
    g, n, hist = case
    f = oh.factory()
    try:
        objs = {w: getattr(options, g)() for w in "ab"}
        model = snapshot()
        for w, k in hist:
            if w == "new":
                objs[k] = getattr(options, g)()
                model.update({g + "." + m: float(v) for m, v in TABLE[g].items() if v is not None})
            elif w == "gmsh":
                gmsh.option.setNumber(g + "." + n, float(values(n)[k]))
            else:
                setattr(objs[w], n, values(n)[k])
            if w != "new":
                model[g + "." + n] = float(values(n)[k])
            compare(model, [g, n, w, k])
            out.transitions += 1
    finally:
        del f
    out.states += 1
    out.outcomes.add(str(sorted(model.items())))


class Custom(options.OptionsBase):
    def __init__(self, kinds, names):
        super().__init__("Mesh.")
        for k, n in zip(kinds, names):
            setattr(self, n, {"int": int, "float": float, "bool": bool, "enum": options.QualityType, "i": 3, "f": 0.125, "b": True, "e": options.QualityType.SignedInverseGradientError}[k])
        self.finish_init()


def custom_cases(ctx):
    names = ["RandomFactor", "Smoothing", "ElementOrder"]
    for kinds in itertools.product(["int", "float", "bool", "enum", "i", "f", "b", "e"], repeat=2):
        for n in itertools.permutations(names, 2):
            yield [list(kinds), list(n)]


def custom(case, out):
    kinds, names = case
    f = oh.factory()
    before = {n: gmsh.option.getNumber("Mesh." + n) for n in ("RandomFactor", "Smoothing", "ElementOrder")}
    o = Custom(kinds, names)
    for k, n in zip(kinds, names):
        before[n] = {"i": 3, "f": 0.125, "b": 1, "e": 1}.get(k, before[n])
    for n, v in before.items():
        want = float(int(v)) if n != "RandomFactor" else v
        require(gmsh.option.getNumber("Mesh." + n) in (v, want), "initial value of {} is {} instead of {}", n, gmsh.option.getNumber("Mesh." + n), v)
    for n, v in zip(names, (2, 1)):
        setattr(o, n, v)
        require(gmsh.option.getNumber("Mesh." + n) == v, "option {} is {} instead of {}", n, gmsh.option.getNumber("Mesh." + n), v)
    other = [n for n in before if n not in names][0]
    for n, v in ((other, 1), (names[0], "x"), (names[1], None)):
        now = gmsh.option.getNumber("Mesh." + n)
        try:
            setattr(o, n, v)
        except (AssertionError, ValueError):
            pass
        else:
            require(False, "assignment of {!r} to {} is accepted", v, n)
        require(gmsh.option.getNumber("Mesh." + n) == now, "refused value was set")
    out.outcomes.add(str(case))


def method_cases(ctx):
    """All ordered pairs of named methods, set one after the other."""
    for e, n in METHODS:
        for a, b in itertools.product(NUMBERS[e], repeat=2):
            yield [e, n, a, b]


def method(case, out):
    e, n, a, b = case
    f = oh.factory()
    o = options.Mesh()
    for x in (a, b):
        setattr(o, n, getattr(getattr(options, e), x))
        require(gmsh.option.getNumber("Mesh." + n) == NUMBERS[e][x], "{}.{} sets Mesh.{} to {} instead of {}", e, x, n, gmsh.option.getNumber("Mesh." + n), NUMBERS[e][x])
    out.outcomes.add(str(case))
    del f


class Texts(options.OptionsBase):
    def __init__(self, first, second):
        super().__init__("General.")
        self.DefaultFileName = first
        self.ErrorFileName = second
        self.Verbosity = int
        self.finish_init()


TEXTS = ["a.geo", "x y", "", "1", "b/c.txt"]


def text_cases(ctx):
    for a in TEXTS + [None]:
        for b in TEXTS[:3] + [None]:
            for h in itertools.product(range(2), range(len(TEXTS)), repeat=2):
                yield [a, b, list(h)]


def texts(case, out):
    """Options of text type."""
    a, b, h = case
    f = oh.factory()
    names = ["DefaultFileName", "ErrorFileName"]
    old = [gmsh.option.getString("General." + n) for n in names] + [gmsh.option.getNumber("General.Verbosity")]
    try:
        model = [x if v is None else v for v, x in zip((a, b), old)]
        o = Texts(str if a is None else a, str if b is None else b)
        for step in range(3):
            now = [gmsh.option.getString("General." + n) for n in names]
            require(now == model, "text options are {} instead of {}", now, model)
            if step < 2:
                i, k = h[2 * step:2 * step + 2]
                setattr(o, names[i], TEXTS[k])
                model[i] = TEXTS[k]
        for n, v in (("Verbosity", "1"), (names[0], 1), (names[1], 0.5), (names[0], None)):
            try:
                setattr(o, n, v)
            except (AssertionError, ValueError):
                continue
            require(False, "assignment of {!r} to {} is accepted", v, n)
        require([gmsh.option.getString("General." + n) for n in names] == model, "refused value was set")
    finally:
        for n, v in zip(names, old):
            gmsh.option.setString("General." + n, v)
        gmsh.option.setNumber("General.Verbosity", old[2])
        del f
    out.outcomes.add(str(case))


SPACES = {"two": two, "method": method, "texts": texts, "history": history, "custom": custom}


def explore(ctx):
    ctx.each("history", cases(ctx), history)
    ctx.each("two", two_cases(ctx), two, chunk=64)
    ctx.each("method", method_cases(ctx), method)
    ctx.each("texts", text_cases(ctx), texts)
    ctx.each("custom", custom_cases(ctx), custom)


def replay(case):
    SPACES[case["space"]](case["case"], core.Out())
