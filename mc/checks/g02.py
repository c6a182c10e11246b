"""G02: element data written and read are the same data; truncated and inconsistent data are refused."""
import io as sio
import itertools
import os

import numpy as np
from bgem.gmsh import gmsh_io

from .. import core
from .. import mesh_ref as mr
from .. import brep_harness as bh
from ..core import require
from . import g01

LEVEL = "model_checking"
ASSUMPTIONS = ["values are finite reals, field names have no quotes or line breaks"]

VALS = [0.0, 1.0, -2.5, 1 / 3, 1e-300, -1e300, 123456789.123456789, 0.1, 5e-324, 2.0 ** 60]
IDS = {"seq": [1, 2, 3, 4, 5], "perm": [4, 1, 5, 2, 3], "big": [2 ** 31 - 1, 7, 1000000, 12, 0], "sub": [2, 5, 9, 11, 13]}
FIELDS = ["conductivity", "a b c", "x", "", "1", "flow:pressure_p0"]


def values(n, comp, s, kind):
    v = [[VALS[(s + 3 * i + 7 * j) % len(VALS)] for j in range(comp)] for i in range(n)]
    if kind == "int":
        return np.array([[int(i + j + s) for j in range(comp)] for i in range(n)]), [[float(i + j + s) for j in range(comp)] for i in range(n)]
    if kind == "vector":
        return np.array([r[0] for r in v]), [r[:1] for r in v]
    if kind == "f32":
        a = np.array(v, dtype=np.float64) % 1024
        return a.astype(np.float32), None
    return np.array(v, dtype=float), v


def cases(ctx):
    for nf in range(1, ctx.pick(4, 5)):
        for names in itertools.permutations(FIELDS, min(nf, 3)) if nf < 3 or not ctx.quick else itertools.combinations(FIELDS, 3):
            for ids in IDS:
                for n in (1, 2, 5):
                    for comp in (1, 3, 9):
                        for kind in ("float", "int", "vector"):
                            if kind == "vector" and comp != 1:
                                continue
                            yield [list(names), ids, n, comp, kind]


def fields(case, out):
    names, ids, n, comp, kind = case
    eids = IDS[ids][:n]
    flds, exp = {}, {}
    for k, f in enumerate(names):
        c = comp if k % 2 == 0 or kind == "vector" else 3
        a, e = values(n, c, k, kind)
        flds[f], exp[f] = a, e
    keep = {f: a.copy() for f, a in flds.items()}
    for how in ("file", "own", "append"):
        path = mr.scratch("fld")
        w = gmsh_io.GmshIO()
        w.filename = path
        mesh = None
        if how == "append":
            mesh = g01.make([2, 4, 1], "seq", 2, 1)
            with open(path, "w") as f:
                g01.load(mesh, "list").write_ascii(f)
                for name, a in flds.items():
                    w.write_element_data(f, eids if n % 2 else np.array(eids), name, a)
        else:
            w.filename = path if how == "own" else path + "other"
            w.write_fields(path if how == "file" else None, eids, flds)
            require(not os.path.exists(path + "other"), "written to a wrong file")
            with open(path) as f:
                text = f.read()
            try:
                p = mr.parse_fields(text)
            except (AssertionError, ValueError, IndexError) as e:
                require(False, "written file is malformed: {}", e)
            require(p == [(f, 0.0, 0, len(exp[f][0]), list(zip(map(int, eids), exp[f]))) for f in names], "written file contains {}", p)
        r = gmsh_io.GmshIO(path)
        require(set(r.element_data) == set(names), "fields {} read instead of {}", sorted(r.element_data), sorted(names))
        for f in names:
            require(list(r.element_data[f]) == [0], "times of {}: {}", f, list(r.element_data[f]))
            time, data = r.element_data[f][0]
            require(time == 0, "time is {}", time)
            require(list(data) == list(eids), "elements of {} are {} instead of {}", f, list(data), list(eids))
            require([list(data[i]) for i in eids] == exp[f], "values of {} are {} instead of {}", f, [data[i] for i in eids], exp[f])
        if mesh:
            g01.same(g01.norm(r), mesh, "mesh in the same file")
    require(all(np.array_equal(flds[f], keep[f]) for f in flds), "writing changed the values")
    out.outcomes.add(str(case))


# ---------------------------------------------------------------- files of other programs
def block(field, tidx, time, rows, comp, n=None):
    return ["$ElementData", "1", '"{}"'.format(field), "1", repr(time), "3", str(tidx), str(comp), str(len(rows) if n is None else n)] + \
        [" ".join([str(i)] + [repr(x) for x in v]) for i, v in rows] + ["$EndElementData"]


def time_cases(ctx):
    for fs in (["p"], ["p", "q"], ["p", "q", "r s"]):
        for steps in itertools.product(((0,), (0, 1), (2, 0, 1), (5,)), repeat=len(fs)):
            for comp in (1, 3):
                for inter in (0, 1):
                    yield [fs, [list(s) for s in steps], comp, inter]


def times(case, out):
    fs, steps, comp, inter = case
    blocks, exp = [], {}
    for k, (f, st) in enumerate(zip(fs, steps)):
        for t in st:
            rows = [(i, [VALS[(i + 3 * j + t + k) % len(VALS)] for j in range(comp)]) for i in (3, 1, 7)[:1 + (t + k) % 3]]
            blocks.append((t if inter else 0, k, block(f, t, 0.25 * t, rows, comp)))
            exp.setdefault(f, {})[t] = (0.25 * t, {i: v for i, v in rows})
    blocks.sort(key=lambda b: b[0])
    path = mr.scratch("tm")
    with open(path, "w") as f:
        f.write("\n".join(["$MeshFormat", "2.2 0 8", "$EndMeshFormat"] + [ln for b in blocks for ln in b[2]]) + "\n")
    r = gmsh_io.GmshIO(path)
    require(r.element_data == exp, "data are {} instead of {}", r.element_data, exp)
    out.outcomes.add(str(case))


def bad_cases(ctx):
    for n in (1, 2, 4):
        for comp in (1, 3):
            for k in range(n + 1):
                for after in (0, 1):
                    yield ["rows", n, comp, k, after]
            for d in (-1, 1):
                for i in range(n):
                    if comp + d > 0:
                        yield ["comp", n, comp, d, i]
            yield ["same", n, comp, 0, 0]


def bad(case, out):
    """All numbers of missing rows, all rows with wrong number of values, repeated time."""
    what, n, comp, a, b = case
    rows = [(i + 1, [float(i + j) for j in range(comp)]) for i in range(n)]
    more = block("next", 0, 0.0, rows, comp)
    ok = False
    if what == "rows":
        ln = block("f", 0, 0.0, rows[:a], comp, n) + (more if b else [])
        ok = a == n
    elif what == "comp":
        rows[b] = (rows[b][0], [1.0] * (comp + a))
        ln = block("f", 0, 0.0, rows, comp)
    else:
        ln = block("f", 0, 0.0, rows, comp) + block("f", 0, 0.0, rows, comp)
    path = mr.scratch("bad")
    with open(path, "w") as f:
        f.write("\n".join(["$MeshFormat", "2.2 0 8", "$EndMeshFormat"] + ln) + "\n")
    try:
        r = gmsh_io.GmshIO(path)
        good = True
    except Exception:
        good = False
    require(good == ok, "{} data ({}) were {}", "good" if ok else "bad", what, "read" if good else "refused")
    out.outcomes.add(str(case))


# ---------------------------------------------------------------- gmsh
def gmsh_cases(ctx):
    for ids in ("seq", "perm", "sub"):
        for comp in (1, 3, 9):
            for n in (1, 2, 5):
                for name in ("p", "two words"):
                    yield [ids, comp, n, name]


def read_gmsh(case, out):
    ids, comp, n, name = case
    eids = IDS[ids][:n]
    path = mr.scratch("gd")
    nodes = {i: [float(i % 3), float(i // 3), 0.] for i in range(1, 12)}
    m = {"nodes": nodes, "elements": {i: (2, [1, 1], [1 + k, 2 + k, 5 + k]) for k, i in enumerate(sorted(eids))}, "physical": {}}
    a, e = values(n, comp, 1, "int")
    with open(path, "w") as f:
        g01.load(m, "list").write_ascii(f)
        gmsh_io.GmshIO().write_element_data(f, eids, name, a)
    gmsh = bh.occ_module()
    gmsh.clear()
    gmsh.open(path)
    views = gmsh.view.getTags()
    require(len(views) == 1, "gmsh read {} views", len(views))
    kind, tags, data, time, nc = gmsh.view.getModelData(views[0], 0)
    require(kind == "ElementData" and nc == comp and time == 0, "view is {} {} {}", kind, nc, time)
    got = {int(i): [float(x) for x in v] for i, v in zip(tags, data)}
    require(got == {i: v for i, v in zip(eids, e)}, "gmsh read {} instead of {}", got, dict(zip(eids, e)))
    out.outcomes.add(str(case))


def large_cases(ctx):
    for n in ctx.pick((40, 300, 2500), (40, 300, 2500, 20000)):
        for order in ("seq", "desc", "mix"):
            for comp in (1, 3, 9):
                for nf in (1, 4, 12):
                    if n < 2000 or nf < 12 or order == "seq":
                        yield [n, order, comp, nf]


def large(case, out):
    """Many elements and fields, after a mesh in the same file."""
    n, order, comp, nf = case
    ids = [{"seq": i + 1, "desc": 10 ** 6 - 3 * i, "mix": (i * 7919) % 100003 + 10}[order] for i in range(n)]
    mesh = {"nodes": {1: [0., 0., 0.], 2: [1., 0., 0.], 3: [0., 1., 0.]}, "elements": {i: (2, [1, 1], [1, 2, 3]) for i in sorted(ids)[:50]}, "physical": {}}
    path = mr.scratch("lgf")
    flds = {"field {}".format(k): np.array([[(i * (k + 3) % 1013 + j / 3) * 10. ** ((i + k) % 7 - 3) for j in range(comp)] for i in range(n)]) for k in range(nf)}
    w = gmsh_io.GmshIO()
    with open(path, "w") as f:
        g01.load(mesh, "list").write_ascii(f)
        for name, a in flds.items():
            w.write_element_data(f, ids, name, a)
    r = gmsh_io.GmshIO(path)
    g01.same(g01.norm(r), mesh, "mesh in the same file")
    require(list(r.element_data) == list(flds), "fields are {}", list(r.element_data))
    for name, a in flds.items():
        require(list(r.element_data[name]) == [0], "times of {}: {}", name, list(r.element_data[name]))
        time, data = r.element_data[name][0]
        require(time == 0 and list(data) == ids, "time {} or elements of {} differ ({} of {})", time, name, len(data), n)
        bad = [i for i, v in zip(ids, a.tolist()) if list(data[i]) != v]
        require(not bad, "{}: values of {} elements differ, first {}: {}", name, len(bad), bad[:1], [data[i] for i in bad[:1]])
    # read again by the same object over another file
    path2 = mr.scratch("lgf2")
    w.write_fields(path2, ids[:7], {"other": np.arange(7.).reshape(7, 1)})
    r.filename = path2
    r.reset()
    r.read()
    require({f: {t: (v[0], {i: list(x) for i, x in v[1].items()}) for t, v in d.items()} for f, d in r.element_data.items()} ==
            {"other": {0: (0, {i: [float(k)] for k, i in enumerate(ids[:7])})}} and not r.nodes and not r.elements, "second file read as {}", r.element_data)
    out.outcomes.add(str(case))


SPACES = {"large": large, "fields": fields, "times": times, "bad": bad, "gmsh": read_gmsh}


def explore(ctx):
    ctx.each("fields", cases(ctx), fields)
    ctx.each("times", time_cases(ctx), times)
    ctx.each("bad", bad_cases(ctx), bad)
    ctx.each("gmsh", gmsh_cases(ctx), read_gmsh)
    ctx.each("large", large_cases(ctx), large, chunk=2)


def replay(case):
    SPACES[case["space"]](case["case"], core.Out())
