"""G01: meshes written and read, in all formats, are the same meshes."""
import itertools
import os

import numpy as np
from bgem.gmsh import gmsh_io

from .. import core
from .. import mesh_ref as mr
from .. import brep_harness as bh
from ..core import require

LEVEL = "model_checking"
ASSUMPTIONS = ["node coordinates are finite, tags are integers, physical names have no quotes or line breaks and are unique over dimensions (storage of the class)",
               "binary files in the byte order of this machine"]

COORDS = [[0, 0, 0], [1.5, -2.25, 3], [1e-7, 123456.789, -1e20], [1 / 3, 2 / 3, 0.1], [5, 6, 7], [0.30000000000000004, -0.0, 1e-300],
          [1, 2, 4], [3, 2, 1], [9, 8, 7], [-1, -1, -1]]
IDS = {"seq": lambda i: i + 1, "zero": lambda i: i, "sparse": lambda i: 3 * i * i + 7, "desc": lambda i: 100 - i, "big": lambda i: 2 ** 30 + 17 * i}
TYPES = [15, 1, 2, 4, 3, 5, 6, 7, 8, 9, 10, 11]
NAMES = [{}, {"bulk": (1, 3)}, {"a": (5, 2), "top side": (7, 2), "x-1_y.z": (1000000, 0)}, {"1": (1, 1), "2 3 4": (2, 1)}]


def make(types, ids, ntags, names, coord="float"):
    nid = [IDS[ids](i) for i in range(10)]
    nodes = {nid[i]: [float(c) for c in COORDS[i]] for i in range(10)}
    els = {}
    for k, t in enumerate(types):
        n = mr.NODES_OF[t]
        ns = [nid[(k * 3 + j) % 10] for j in range(n)]
        nt = ntags if ntags != "mix" else k % 4
        els[IDS[ids](k) + (5 if ids == "desc" else 0)] = (t, [10 * k + j + 1 for j in range(nt)], ns)
    return {"nodes": nodes, "elements": els, "physical": dict(NAMES[names])}


def load(mesh, kind):
    io = gmsh_io.GmshIO()
    conv = {"list": list, "array": np.array, "tuple": tuple}[kind]
    for i, x in mesh["nodes"].items():
        io.nodes[i] = conv(x)
    for i, (t, tags, ns) in mesh["elements"].items():
        io.elements[i] = (t, tuple(tags) if kind == "tuple" else list(tags), list(ns) if kind == "list" else conv(ns))
    io.physical = dict(mesh["physical"])
    return io


def norm(io):
    return {"nodes": {int(i): [float(c) for c in x] for i, x in io.nodes.items()},
            "elements": {int(i): (int(t), [int(x) for x in tg], [int(x) for x in ns]) for i, (t, tg, ns) in io.elements.items()},
            "physical": {n: tuple(v) for n, v in io.physical.items()}}


def same(a, b, what):
    for k in ("nodes", "elements", "physical"):
        if a[k] != b[k]:
            diff = [i for i in set(a[k]) | set(b[k]) if a[k].get(i) != b[k].get(i)]
            i = sorted(diff, key=str)[0]
            require(False, "{}: {} {} is {} instead of {}", what, k, i, a[k].get(i), b[k].get(i))


def as_lists(mesh):
    return {"nodes": mesh["nodes"], "elements": {i: (t, list(a), list(b)) for i, (t, a, b) in mesh["elements"].items()}, "physical": mesh["physical"]}


def spaces(ctx):
    n = ctx.pick(2, 3)
    for k in range(0, n + 1):
        for types in itertools.product(TYPES, repeat=k):
            if k == 3 and len(set(types)) == 3 and types != tuple(sorted(types)) and types != tuple(sorted(types, reverse=True)):
                continue
            yield list(types)
    yield TYPES
    yield TYPES[::-1]
    yield [2, 2, 2, 4, 4, 4, 1, 1, 15, 15]


def rt_cases(ctx):
    for types in spaces(ctx):
        for ids in IDS:
            for ntags in (2, 0, 3, "mix"):
                nm = (len(types) + len(ids) + (ntags if ntags != "mix" else 1)) % 4
                for names in ([nm] if len(types) > 1 else range(4)):
                    yield [types, ids, ntags, names]


def roundtrip(case, out):
    mesh = make(*case)
    kind = ("list", "array", "tuple")[(len(case[0]) + len(case[1])) % 3]
    io = load(mesh, kind)
    path = mr.scratch("rt")
    io.filename = path
    # text, independent reader
    with open(path, "w") as f:
        io.write_ascii(f)
    with open(path) as f:
        text = f.read()
    try:
        p = mr.parse_text2(text)
    except (AssertionError, ValueError, IndexError) as e:
        require(False, "written file is malformed: {}", e)
    same(p, mesh, "written text")
    # text, own reader, by name and by stream
    same(norm(gmsh_io.GmshIO(path)), mesh, "text read back")
    r = gmsh_io.GmshIO()
    with open(path) as f:
        r.read(f)
    same(norm(r), mesh, "text stream read back")
    # written again under own file name
    r.filename = path + "2"
    r.write_ascii()
    with open(path + "2") as f:
        require(f.read() == text, "text written again differs")
    # reread after reset
    r.reset()
    require(not (r.nodes or r.elements or r.physical), "reset leaves data")
    r.read()
    same(norm(r), mesh, "reread")
    # binary
    for own in (True, False):          # to the own file, to a given one
        io.filename = path if own else path + "other"
        io.write_binary(*([] if own else [path]))
        require(not os.path.exists(path + "other"), "written to a wrong file")
        with open(path, "rb") as f:
            data = f.read()
        try:
            p = mr.parse_binary2(data)
        except (AssertionError, ValueError, IndexError, KeyError) as e:
            require(False, "written binary file is malformed: {}", e)
        same(p, mesh, "written binary")
    io.filename = path
    b = gmsh_io.GmshIO(path)
    same(norm(b), mesh, "binary read back")
    b.write_ascii(open(path, "w"))
    with open(path) as f:
        same(mr.parse_text2(f.read()), mesh, "binary to text")
    same(norm(io), mesh, "mesh after writing")
    os.remove(path + "2")
    out.outcomes.add(str(case))


def read_cases(ctx):
    lists = [[], [2], [15, 15], [4, 4, 2, 2, 1], TYPES, [5, 6, 7], [2, 2, 4, 2, 2]] + [[t, u] for t in TYPES for u in TYPES]
    for types in lists:
        for ids in IDS:
            for names in (0, 2, 3):
                yield [types, ids, 2, names, "v1", 0]
                for order in ("PNE", "NEP", "NPE", "XPNEX", "PXNXE"):
                    for blank in range(8):
                        if len(types) == 2 and blank not in (0, 3, 6):
                            continue
                        yield [types, ids, (2, "mix", 0)[blank % 3], names, order, blank]
                for blocks in (0, 1):
                    yield [types, ids, (2, 3)[names // 2], names, "bin", blocks]


def read(case, out):
    types, ids, ntags, names, how, arg = case
    mesh = make(types, ids, ntags, names)
    path = mr.scratch("rd")
    if how == "v1":
        mesh["physical"] = {}
        data = mr.text1(mesh).encode()
    elif how == "bin":
        data = mr.binary2(mesh, bool(arg))
    else:
        data = mr.text2(mesh, how, arg, arg % 3).encode()
    with open(path, "wb") as f:
        f.write(data)
    same(norm(gmsh_io.GmshIO(path)), mesh, "file {} {}".format(how, arg))
    out.outcomes.add(str(case))


def gmsh_cases(ctx):
    for types in [[2], [2, 2], [1, 2], [4], [4, 2, 1, 15], [5], [6, 7], [3, 2], [8, 9], [11], [15], [4, 4, 4]]:
        for ids in ("seq", "sparse", "desc"):
            for names in (0, 1, 2):
                for binary in (0, 1):
                    yield [types, ids, names, binary]


DIM = {15: 0, 1: 1, 8: 1, 2: 2, 3: 2, 9: 2, 4: 3, 5: 3, 6: 3, 7: 3, 11: 3}
GM_ORDER = {}


def occ(case, out):
    """The file is read by gmsh, written by gmsh and read back."""
    types, ids, names, binary = case
    mesh = make(types, ids, 2, names)
    used = {n for _, _, ns in mesh["elements"].values() for n in ns}
    mesh["nodes"] = {i: x for i, x in mesh["nodes"].items() if i in used}
    k = 1
    for i, (t, tags, ns) in list(mesh["elements"].items()):
        phys = [v for v in mesh["physical"].values() if v[1] == DIM[t]]
        mesh["elements"][i] = (t, [phys[0][0] if phys else 40 + DIM[t], k], ns)
        k += 1
    used_groups = {(tags[0], DIM[t]) for t, tags, _ in mesh["elements"].values()}
    io = load(mesh, "list")
    path = mr.scratch("gm")
    io.filename = path
    if binary:
        io.write_binary()
    else:
        with open(path, "w") as f:
            io.write_ascii(f)
    same(norm(gmsh_io.GmshIO(path)), mesh, "own reading")
    gmsh = bh.occ_module()
    gmsh.clear()
    gmsh.open(path)
    tags, xyz, _ = gmsh.model.mesh.getNodes()
    got = {int(t): list(map(float, x)) for t, x in zip(tags, np.reshape(xyz, (-1, 3)))}
    require(set(got) == set(mesh["nodes"]) and all(np.allclose(got[i], mesh["nodes"][i], rtol=1e-12, atol=0) for i in got), "nodes read by gmsh differ")
    els = {}
    for d, e in gmsh.model.getEntities():
        tt, et, en = gmsh.model.mesh.getElements(d, e)
        groups = [int(g) for g in gmsh.model.getPhysicalGroupsForEntity(d, e)]
        for t, a, b in zip(tt, et, en):
            b = np.reshape(b, (len(a), -1))
            for x, ns in zip(a, b):
                els[int(x)] = (int(t), [groups[0] if groups else 0, e], [int(n) for n in ns])
    require(els == mesh["elements"], "elements read by gmsh are {} instead of {}", els, mesh["elements"])
    for n, (i, d) in mesh["physical"].items():
        if (i, d) in used_groups:
            require(gmsh.model.getPhysicalName(d, i) == n, "name read by gmsh is {} instead of {}", gmsh.model.getPhysicalName(d, i), n)
    # back
    for b in (0, 1):
        gmsh.option.setNumber("Mesh.MshFileVersion", 2.2)
        gmsh.option.setNumber("Mesh.Binary", b)
        gmsh.write(path)
        r = norm(gmsh_io.GmshIO(path))
        # gmsh renumbers what it writes
        key = lambda m: sorted((t, tg, [["{:.12g}".format(c) for c in m["nodes"][n]] for n in ns]) for t, tg, ns in m["elements"].values())
        require(key(r) == key(mesh), "elements of gmsh file: {} instead of {}", r["elements"], mesh["elements"])
        require(len(r["nodes"]) == len(mesh["nodes"]), "nodes of gmsh file differ")
        require(all(r["physical"].get(n) == v for n, v in mesh["physical"].items() if v in used_groups), "names of gmsh file: {}", r["physical"])
    gmsh.option.setNumber("Mesh.Binary", 0)
    out.outcomes.add(str(case))


def large_cases(ctx):
    for n in ctx.pick((30, 257, 1500), (30, 257, 1500, 12000)):
        for ids in IDS:
            for types in ([4, 2], TYPES):
                for n_names in (0, 1, 60):
                    yield [n, ids, types, n_names]


def large_mesh(case):
    n, ids, types, n_names = case
    idf = (lambda i: 2 * n - i) if ids == "desc" else IDS[ids] if ids != "sparse" else lambda i: 7 * i + 3 + (i % 3)
    nid = [idf(i) for i in range(n)]
    nodes = {nid[i]: [i / 7, (i * i % 1009) * 1e-3 - 1 / 3, -1e5 + i * 1e-4] for i in range(n)}
    els = {}
    for k in range(n):
        t = types[k % len(types)]
        els[idf(k)] = (t, [k % max(1, n_names) + 1, k, k % 5][:2 if len(types) == 2 else k % 4], [nid[(5 * k + 11 * j) % n] for j in range(mr.NODES_OF[t])])
    return {"nodes": nodes, "elements": els, "physical": {"region {} of {}".format(i, "abc"[i % 3]): (i + 1, i % 4) for i in range(n_names)}}


def large(case, out):
    """Meshes of many nodes, elements and names, in all formats."""
    mesh = large_mesh(case)
    io = load(mesh, "list")
    path = mr.scratch("lg")
    io.filename = path
    io.write_ascii()
    with open(path) as f:
        same(mr.parse_text2(f.read()), mesh, "written text")
    same(norm(gmsh_io.GmshIO(path)), mesh, "text read back")
    io.write_binary()
    with open(path, "rb") as f:
        same(mr.parse_binary2(f.read()), mesh, "written binary")
    same(norm(gmsh_io.GmshIO(path)), mesh, "binary read back")
    with open(path, "wb") as f:
        f.write(mr.binary2(mesh, True))
    same(norm(gmsh_io.GmshIO(path)), mesh, "binary in blocks")
    same(norm(io), mesh, "mesh after writing")
    out.outcomes.add(str(case))


SPACES = {"large": large, "roundtrip": roundtrip, "read": read, "gmsh": occ}


def explore(ctx):
    ctx.each("roundtrip", rt_cases(ctx), roundtrip)
    ctx.each("read", read_cases(ctx), read)
    ctx.each("gmsh", gmsh_cases(ctx), occ)
    ctx.each("large", large_cases(ctx), large, chunk=2)


def replay(case):
    SPACES[case["space"]](case["case"], core.Out())
