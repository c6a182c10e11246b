"""Independent writers and readers of MSH files (formats 1 and 2, text and binary) used by the mesh checks."""
import os
import struct

NODES_OF = {1: 2, 2: 3, 3: 4, 4: 4, 5: 8, 6: 6, 7: 5, 8: 3, 9: 6, 10: 9, 11: 10, 15: 1}


def scratch(name):
    return os.path.join(os.environ.get("MC_SCRATCH", "/tmp"), "{}-{}.msh".format(name, os.getpid()))


def num(x):
    return repr(float(x))


def sections(mesh, blank="", style=0):
    """Text sections of format 2. mesh: dict(nodes, elements, physical)."""
    ph = ["$PhysicalNames", str(len(mesh["physical"]))]
    ph += ['{} {} "{}"'.format(d, i, n) for n, (i, d) in mesh["physical"].items()] + ["$EndPhysicalNames"]
    sep = ["  ", " ", "\t"][style]
    no = ["$Nodes", str(len(mesh["nodes"]))] + [sep.join([str(i)] + [num(c) for c in x]) for i, x in mesh["nodes"].items()] + ["$EndNodes"]
    el = ["$Elements", str(len(mesh["elements"]))]
    el += [" ".join(map(str, [i, t, len(tags)] + list(tags) + list(ns))) for i, (t, tags, ns) in mesh["elements"].items()] + ["$EndElements"]
    return {"P": ph, "N": no, "E": el, "X": ["$Comments", "1 2 3 4 5 6 7 8", "made 4 test", "$EndComments"]}


def text2(mesh, order="PNE", blank=0, style=0):
    s = sections(mesh, style=style)
    out = ["$MeshFormat", "2.2 0 8", "$EndMeshFormat"]
    for o in order:
        if blank & 1:
            out.append("")
        sec = list(s[o])
        if blank & 2:
            sec.insert(2, "")
        if blank & 4:
            sec.insert(len(sec) - 1, "   ")
        out += sec
    if blank & 1:
        out.append("")
    return "\n".join(out) + "\n"


def text1(mesh):
    """Format 1: id type reg-phys reg-elem number-of-nodes nodes."""
    out = ["$NOD", str(len(mesh["nodes"]))] + [" ".join([str(i)] + [num(c) for c in x]) for i, x in mesh["nodes"].items()] + ["$ENDNOD"]
    out += ["$ELM", str(len(mesh["elements"]))]
    out += [" ".join(map(str, [i, t] + list(tags)[:2] + [len(ns)] + list(ns))) for i, (t, tags, ns) in mesh["elements"].items()] + ["$ENDELM"]
    return "\n".join(out) + "\n"


def binary2(mesh, blocks=True):
    """Binary format 2, elements of same type and number of tags in one block."""
    b = b"$MeshFormat\n2.2 1 8\n" + struct.pack("<i", 1) + b"\n$EndMeshFormat\n"
    b += "\n".join(sections(mesh)["P"]).encode() + b"\n"
    b += b"$Nodes\n%d\n" % len(mesh["nodes"])
    for i, x in mesh["nodes"].items():
        b += struct.pack("<i3d", i, *x)
    b += b"\n$EndNodes\n$Elements\n%d\n" % len(mesh["elements"])
    items = list(mesh["elements"].items())
    while items:
        t, tags, _ = items[0][1]
        n = 1
        while blocks and n < len(items) and items[n][1][0] == t and len(items[n][1][1]) == len(tags):
            n += 1
        b += struct.pack("<3i", t, n, len(tags))
        for i, (_, tg, ns) in items[:n]:
            b += struct.pack("<%di" % (1 + len(tg) + len(ns)), i, *tg, *ns)
        items = items[n:]
    return b + b"\n$EndElements\n"


def parse_text2(text):
    """Strict reader of a text file of format 2.2."""
    ln = text.split("\n")
    pos = [0]

    def nxt():
        pos[0] += 1
        return ln[pos[0] - 1]

    def expect(w):
        x = nxt()
        assert x == w, "expected {}, got {}".format(w, x)
    mesh = {"nodes": {}, "elements": {}, "physical": {}}
    expect("$MeshFormat"), expect("2.2 0 8"), expect("$EndMeshFormat")
    expect("$PhysicalNames")
    for _ in range(int(nxt())):
        d, i, n = nxt().split(" ", 2)
        assert len(n) > 2 and n[0] == n[-1] == '"' and '"' not in n[1:-1], "physical name {} not quoted".format(n)
        mesh["physical"][n[1:-1]] = (int(i), int(d))
    expect("$EndPhysicalNames"), expect("$Nodes")
    for _ in range(int(nxt())):
        c = nxt().split()
        assert len(c) == 4 and int(c[0]) not in mesh["nodes"], "node {}".format(c)
        mesh["nodes"][int(c[0])] = [float(x) for x in c[1:]]
    expect("$EndNodes"), expect("$Elements")
    for _ in range(int(nxt())):
        c = [int(x) for x in nxt().split()]
        k = 3 + c[2]
        assert c[0] not in mesh["elements"], "element {}".format(c)
        mesh["elements"][c[0]] = (c[1], c[3:k], c[k:])
    expect("$EndElements")
    assert [x for x in ln[pos[0]:] if x] == [], "text after the end"
    return mesh


def parse_binary2(data):
    """Strict reader of a binary file of format 2.2."""
    pos = [0]

    def line():
        e = data.index(b"\n", pos[0])
        r, pos[0] = data[pos[0]:e], e + 1
        return r.decode()

    def raw(fmt):
        n = struct.calcsize(fmt)
        assert pos[0] + n <= len(data), "file ends in the data"
        pos[0] += n
        return struct.unpack(fmt, data[pos[0] - n:pos[0]])

    def expect(w):
        x = line()
        assert x == w, "expected {}, got {}".format(w, x)
    mesh = {"nodes": {}, "elements": {}, "physical": {}}
    expect("$MeshFormat"), expect("2.2 1 8")
    assert raw("<i") == (1,), "byte order mark"
    expect(""), expect("$EndMeshFormat"), expect("$PhysicalNames")
    for _ in range(int(line())):
        d, i, n = line().split(" ", 2)
        assert len(n) > 2 and n[0] == n[-1] == '"' and '"' not in n[1:-1], "physical name {} not quoted".format(n)
        mesh["physical"][n[1:-1]] = (int(i), int(d))
    expect("$EndPhysicalNames"), expect("$Nodes")
    for _ in range(int(line())):
        i, x, y, z = raw("<i3d")
        assert i not in mesh["nodes"], "node {}".format(i)
        mesh["nodes"][i] = [x, y, z]
    expect(""), expect("$EndNodes"), expect("$Elements")
    n = int(line())
    while n > 0:
        t, k, nt = raw("<3i")
        assert 0 < k <= n, "block of {} elements".format(k)
        n -= k
        for _ in range(k):
            v = raw("<%di" % (1 + nt + NODES_OF[t]))
            assert v[0] not in mesh["elements"], "element {}".format(v)
            mesh["elements"][v[0]] = (t, list(v[1:1 + nt]), list(v[1 + nt:]))
    expect(""), expect("$EndElements")
    assert pos[0] == len(data), "data after the end"
    return mesh


def parse_fields(text):
    """Strict reader of a file with element data only: [(field, time, step, components, [(id, values)])]."""
    ln = text.split("\n")
    pos = [0]

    def nxt():
        pos[0] += 1
        return ln[pos[0] - 1]

    def expect(w):
        x = nxt()
        assert x == w, "expected {}, got {}".format(w, x)
    expect("$MeshFormat"), expect("2.2 0 8"), expect("$EndMeshFormat")
    res = []
    while ln[pos[0]:] != [""]:
        expect("$ElementData"), expect("1")
        name = nxt()
        assert len(name) > 1 and name[0] == name[-1] == '"', "field name {}".format(name)
        expect("1")
        time = float(nxt())
        expect("3")
        step, comp, n = int(nxt()), int(nxt()), int(nxt())
        rows = []
        for _ in range(n):
            c = nxt().split()
            assert len(c) == comp + 1, "row {}".format(c)
            rows.append((int(c[0]), [float(x) for x in c[1:]]))
        expect("$EndElementData")
        res.append((name[1:-1], time, step, comp, rows))
    return res
