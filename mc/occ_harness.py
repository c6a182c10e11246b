"""
Reference model for the geometry of bgem.gmsh.gmsh: every shape is a set of cells of the unit lattice
on [-N, N]^3.  A cell is written as its centre in half units: an odd coordinate is an open unit interval, an
even one a lattice plane, so the number of odd coordinates is the dimension of the cell.
The real gmsh model is decoded back into cells through gmsh's own queries.
"""
import collections
import gc
import itertools

import gmsh
import numpy as np
from bgem.gmsh import gmsh as bg

from .core import require, Violation

N = 2
EPS = 1e-5
ALL = {d: [] for d in range(4)}
for c in itertools.product(range(-2 * N, 2 * N + 1), repeat=3):
    ALL[sum(x % 2 for x in c)].append(c)


def factory(name="mc", **kw):
    try:
        return bg.GeometryOCC(name, **kw)
    except Exception:
        gc.collect()
        return bg.GeometryOCC(name, **kw)


def hull(c):
    """Corners of the closed cell in lattice units."""
    return [((x - 1) // 2, (x + 1) // 2) if x % 2 else (x // 2, x // 2) for x in c]


def box_cells(lo, hi):
    """Cells of the closed box with the dimension of the box."""
    ax = [[2 * a] if a == b else list(range(2 * a + 1, 2 * b, 2)) for a, b in zip(lo, hi)]
    return frozenset(itertools.product(*ax))


def transform(cells, f):
    """Image of the cells under an axis preserving map f of lattice points; None when it leaves the lattice."""
    res = set()
    for c in cells:
        h = hull(c)
        p, q = f([a for a, b in h]), f([b for a, b in h])
        lo, hi = [min(a, b) for a, b in zip(p, q)], [max(a, b) for a, b in zip(p, q)]
        if any(x != int(x) for x in lo + hi) or min(lo) < -N or max(hi) > N:
            return None
        res |= box_cells([int(x) for x in lo], [int(x) for x in hi])
    return frozenset(res)


def faces(c):
    """Boundary cells (one dimension less)."""
    for i in range(3):
        if c[i] % 2:
            for s in (-1, 1):
                yield c[:i] + (c[i] + s,) + c[i + 1:]


def boundary(cells):
    cnt = {}
    for c in cells:
        for f in faces(c):
            cnt[f] = cnt.get(f, 0) + 1
    return frozenset(f for f, n in cnt.items() if n == 1)


def components(cells):
    """Number of components connected through faces."""
    cells = set(cells)
    n = 0
    while cells:
        n += 1
        todo = [cells.pop()]
        while todo:
            c = todo.pop()
            for i in range(3):
                if c[i] % 2:
                    for s in (-2, 2):
                        d = c[:i] + (c[i] + s,) + c[i + 1:]
                        if d in cells:
                            cells.remove(d)
                            todo.append(d)
    return n


def bbox_cells(dim, tag):
    bb = gmsh.model.getBoundingBox(dim, tag)
    ib = [round(x) for x in bb]
    require(max(abs(a - b) for a, b in zip(bb, ib)) < EPS, "entity {} with the bounding box {} is not on the lattice",
            (dim, tag), [round(x, 3) for x in bb])
    return ib[:3], ib[3:]


def decode(dim, tag, memo=None):
    """
    Cells covered by a (synchronized) gmsh entity, found by even-odd ray casting against the cells of its boundary,
    which end with axis parallel curves.  Checked with the mass and centre reported by the kernel.
    """
    memo = {} if memo is None else memo
    if (dim, tag) in memo:
        return memo[dim, tag]
    lo, hi = bbox_cells(dim, tag)
    cells = box_cells(lo, hi)
    require(dim_cell(cells) >= dim, "entity {} is degenerate, its box is {} {}", (dim, tag), lo, hi)
    if dim > 1:
        bnd = set()
        for d, t in gmsh.model.getBoundary([(dim, tag)], combined=False, oriented=False):
            bnd ^= set(decode(d, t, memo))
        ax = [k for k in range(3) if lo[k] != hi[k]][0]
        require(dim_cell(cells) == dim, "entity {} is not in a lattice plane", (dim, tag))
        lines = {}
        for c in cells:
            lines.setdefault(c[:ax] + c[ax + 1:], []).append(c[ax])
        res = set()
        for rest, xs in lines.items():
            odd = 0
            for x in range(2 * lo[ax], 2 * hi[ax] + 1):
                c = rest[:ax] + (x,) + rest[ax:]
                if x % 2 == 0:
                    odd ^= c in bnd
                elif odd:
                    res.add(c)
        cells = frozenset(res)
    require(cells and dim_cell(cells) == dim, "entity {} in the box {} {} covers no cell", (dim, tag), lo, hi)
    if dim:
        mass = gmsh.model.occ.getMass(dim, tag)
        com = gmsh.model.occ.getCenterOfMass(dim, tag)
        mean = np.mean(np.array(list(cells)), axis=0) / 2
        require(abs(mass - len(cells)) < EPS, "entity {} covers cells {} and has the mass {}", (dim, tag), sorted(cells), mass)
        require(np.max(np.abs(mean - com)) < EPS, "entity {} covers cells {} and has the centre {}", (dim, tag), sorted(cells), com)
    memo[dim, tag] = cells
    return cells


def dim_cell(cells):
    return sum(x % 2 for x in next(iter(cells))) if cells else -1


def sync(f):
    f.synchronize()


class Slot:
    """Expected content of an ObjectSet: list of (cells, region name) plus the real object."""

    def __init__(self, obj, items, conforming=False):
        self.obj = obj
        self.items = items
        self.conforming = conforming or len(items) == 1

    @property
    def tags(self):
        return [tuple(dt) for dt in self.obj.dim_tags]

    def dims(self):
        return sorted({sum(x % 2 for x in next(iter(c))) for c, r in self.items})

    def cells(self):
        return frozenset().union(*[c for c, r in self.items]) if self.items else frozenset()

    def distinct(self):
        t = self.tags
        return len(set(t)) == len(t)

    def canon(self):
        return [[sorted(c), r] for c, r in self.items]


def check_slot(slot, cache, what):
    obj = slot.obj
    require(obj.dim_tags is not None and obj.regions is not None, "{}: the object set is not valid any more", what)
    require(len(obj.dim_tags) == len(slot.items), "{}: {} entities instead of {}", what, len(obj.dim_tags), len(slot.items))
    require(len(obj.regions) == len(slot.items), "{}: {} regions of {} entities", what, len(obj.regions), len(slot.items))
    for dt, reg, (cells, name) in zip(obj.dim_tags, obj.regions, slot.items):
        dt = tuple(dt)
        if dt not in cache:
            cache[dt] = decode(*dt, cache)
        require(cache[dt] == cells, "{}: entity {} covers {} instead of {}", what, dt, sorted(cache[dt]), sorted(cells))
        require(reg.name == name, "{}: region {} instead of {}", what, reg.name, name)
        require(reg.dim in (None, dt[0]), "{}: region of dimension {} on {}", what, reg.dim, dt)
    require(obj.size == len(slot.items) and list(obj.tags) == [t for d, t in obj.dim_tags], "{}: size or tags do not match the entities", what)


def pieces(obj, items, what, cache, uniform=()):
    """
    Check that the returned object consists of parts of the expected items (cells, region name): per region
    every cell is covered exactly as many times as by the items, each part lies in one item, is connected and
    lies inside or outside of every shape of 'uniform'.  Returns the list of (cells, region) of the result.
    """
    require(obj.dim_tags is not None, "{}: the result is not valid", what)
    require(len(obj.dim_tags) == len(obj.regions), "{}: {} regions of {} entities", what, len(obj.regions), len(obj.dim_tags))
    res = []
    for dt, reg in zip(obj.dim_tags, obj.regions):
        dt = tuple(dt)
        if dt not in cache:
            cache[dt] = decode(*dt, cache)
        res.append((cache[dt], reg.name))
    cover = collections.Counter((x, r) for c, r in res for x in c)
    expect = collections.Counter((x, r) for c, r in items for x in c)
    require(cover == expect, "{}: the parts {} do not make {}", what,
            [(sorted(c), r) for c, r in res], [(sorted(c), r) for c, r in items])
    for c, r in res:
        require(any(c <= d and r == q for d, q in items), "{}: part {} is not a part of one entity", what, sorted(c))
        require(components(c) == 1, "{}: part {} is not connected", what, sorted(c))
        for u in uniform:
            require(not (c & u) or c <= u, "{}: part {} is not split by {}", what, sorted(c), sorted(u))
    return res
