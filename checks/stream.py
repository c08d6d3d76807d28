"""stream networks, cascades and model inputs: C13 - C24"""
import itertools
import math
import os
import shutil
import tempfile

import numpy as np

from mc import core, gen, model
from mc.core import Space, require
from mc.grids import mesh

from dany import FlowDirections, PrmsStreams, Sfr6, Sfr2005
from dany.stream_util import (PygsflowCascades, PygsflowCompatBase, PygsflowStreams,
                              Topology)

from checks.flow import (VARIANTS, as_point, big, floats, hash_sum, huge_dems,
                         inside_point, past)

BUILDERS = {"6": Sfr6, "5": Sfr2005, "p": PrmsStreams}


class Net:
    """a solved flow direction object and what the models need from it"""

    def __init__(self, ctx, mname, z, terms=(), as_cells=True):
        self.m = mesh(mname)
        self.z = floats(z)
        self.grid = self.m.grid()
        ctx.op(3)
        self.fa = FlowDirections(self.grid, self.m.arr(self.z), check_elevations=False)
        kw = dict(terminal_cells=list(terms)) if terms else {}
        self.key = gen.key(mname, z, list(terms), as_cells)
        past(ctx, self.fa, self.m, self.key // 8)
        self.ctx = ctx
        self.f = [int(v) for v in np.ravel(self.fa.flow_directions(**kw))]
        self.acc = [float(v) for v in
                    np.ravel(self.fa.flow_accumulation(as_cells=as_cells))]

    def builder(self, which, cells=None):
        """a builder that, for two cases in five with the given stream cells,
        was used for other stream cells before"""
        b = BUILDERS[which](self.grid, self.fa)
        if cells is None or self.m.n > 2000:
            return b
        k = gen.key(self.key, which, list(cells)) % 5
        if k > 1:
            return b
        other = sorted(set(cells) ^ {k * (self.m.n - 1)}) or [0, self.m.n - 1]
        a = stream_array(self.m, other, "int")
        self.ctx.op(6)
        if which == "6":
            b.get_stream_connectivity(a)
            b.connectiondata()
            b.packagedata()
        elif which == "5":
            b.get_stream_connectivity(a, group_segments=k == 0)
            if self.m.kind == "s":
                b.reach_data()
            b.segment_data()
            b.irunbnd()
        else:
            b.get_stream_connectivity(a, group_segments=k == 0)
            b.get_cascades(many2many=k == 0)
        if self.acyclic(other):
            b.create_stream_vectors()
        if k == 0:
            b.set_stream_array(a)
        return b

    def pick(self, cells):
        """stream cells: a list, or a rule for grids that are too large to list"""
        if cells and cells[0] == "over":
            return [c for c in range(self.m.n) if self.acc[c] >= cells[1]]
        if cells and cells[0] == "skip":
            return [c for c in range(self.m.n) if c % cells[1] != cells[2]]
        return cells

    def acyclic(self, cells):
        return not (model.on_cycle(self.f) & set(cells))


ARRAYS = ("int", "bool", "int8", "float", "nan", "flat", "labels", "uint8", "fortran", "half",
          "negative")


def stream_array(m, cells, how):
    """the same stream cells as the arrays users pass"""
    dtype = {"bool": bool, "int8": np.int8, "uint8": np.uint8,
             "float": float, "nan": float, "half": np.float32}.get(how, int)
    a = np.zeros(m.n, dtype=dtype)
    if how == "nan":
        a[:] = np.nan
    for k, c in enumerate(cells):
        a[c] = {"labels": 7 + 3 * k, "half": 0.25 + k % 2, "negative": k % 3 - 2 or 4}.get(how, 1)
    if how == "fortran":
        return np.asfortranarray(a.reshape(m.shape))
    return a if how == "flat" else a.reshape(m.shape)


def grouping(group, how, default=True):
    """the keyword, which half of the array types leave to its default"""
    if group == default and how in ("int", "nan", "flat", "uint8"):
        return {}
    return {"group_segments": group}


def ints(a):
    return [int(v) for v in np.ravel(a)]


def masks(n, sizes=None):
    yield from gen.subsets(n, sizes or range(1, n + 1))


def unique_low(n, alphabet):
    for z in gen.dems(n, alphabet):
        if z.count(min(z)) == 1:
            yield z


# the families of networks the checks share
def fam_masks(name, alphabet, pick=1):
    """DEMs with one lowest cell x every stream mask"""
    n = mesh(name).n
    for z in unique_low(n, alphabet):
        for s in masks(n):
            if pick == 1 or (hash_sum(z) + hash_sum(s)) % pick == 0:
                yield [name, z, s]


def fam_orders(name, k, firsts=None):
    """elevation orders x a few masks: closed downstream, holes, everything"""
    n = mesh(name).n
    for p in itertools.permutations(range(n)):
        if firsts is not None and p[0] not in firsts:
            continue
        yield [name, list(p), list(range(n))]
        for j in range(k):
            s = [c for c in range(n) if (c * (j + 2) + p[c]) % (j + 2) != 0]
            if s:
                yield [name, list(p), s]


def fam_binary(name, outlets, pick=1):
    """two levels over one outlet, everything is a stream"""
    n = mesh(name).n
    for o in outlets:
        for z in gen.dems(n - 1, (1, 2)):
            if pick == 1 or hash_sum(z) % pick == o % pick:
                yield [name, z[:o] + [0] + z[o:], list(range(n))]


def fam_sparse(name, outlets, pick=1):
    """two levels over one outlet with thinned masks"""
    n = mesh(name).n
    pats = [[c for c in range(n) if c % 3 != 1], [c for c in range(n) if c % 4],
            [c for c in range(n) if c % 2 == 0]]
    for i, (nm, z, _) in enumerate(fam_binary(name, outlets, pick)):
        yield [nm, z, pats[i % 3]]


def fam_pits(name, alphabet, pick):
    """DEMs with pits, tied minima and circulating cells, all cells streams"""
    n = mesh(name).n
    for z in gen.dems(n, alphabet):
        if hash_sum(z) % pick == 0 and any(v is not None for v in z):
            yield [name, z, list(range(n))]


def fam_large(ks, kinds=("rough", "plane", "steps", "nan"), names=None):
    """fixed terrains of several hundred cells; everything, the channels, and
    thinned cells are streams"""
    kw = {} if names is None else dict(names=names)
    rules = (["skip", 1, 1], ["over", 4], ["skip", 5, 2], ["over", 2], ["over", 12],
             ["skip", 2, 0])
    for i, (name, z) in enumerate(big(ks, kinds, **kw)):
        yield [name, z, rules[i % 6]]
        if i % 3 == 0:
            yield [name, z, rules[(i // 3) % 6]]


def fam_rows(n, wide=True):
    """long chains in both directions, with and without gaps"""
    for name in (f"s1x{n}", f"u{n}x1") if wide else (f"s1x{n}",):
        for o in (0, n - 1, n // 3):
            for rule in (["skip", 1, 1], ["skip", 97, 5], ["skip", 2, 1]):
                yield [name, ["terrain", name, 1, o, "plane"], rule]


def fam_huge(*options):
    """more stream cells than a 16 bit number counts: a chain and a dense
    network, with the rest of their cases"""
    rules = (["skip", 1, 1], ["over", 40])
    for (name, z), rule, rest in zip(huge_dems(), rules, options):
        yield [name, z, rule] + list(rest)


def fam_long(*options):
    """more cells than a signed 16 bit number counts, where larger networks
    take minutes"""
    name = "s1x33000"
    for rest in options:
        yield [name, ["terrain", name, 3, 32999, "plane"], ["skip", 1, 1]] + list(rest)


def fam_variants(pick=1, names=VARIANTS):
    """closed rings, layered grids, map coordinates; elevations below zero"""
    for name in names:
        n = mesh(name).n
        for i, z in enumerate(gen.relief(gen.every(unique_low(n, (0, 1, 2)), pick))):
            yield [name, z, [c for c in range(n) if i % 3 == 0 or c % 4 != (i * pick) % 4]]


# ------------------------------------------------------------------------- C13
def run_c13(ctx, case):
    mname, z, which, as_cells, thr, bound = case
    net = Net(ctx, mname, z, as_cells=as_cells)
    m, acc = net.m, net.acc
    b = net.builder(which)
    try:
        b.stream_array
        require(False, "a stream array exists before one was delineated")
    except AssertionError:
        pass
    if isinstance(thr, list):
        lim = [float(t) for t in thr if t != "F"]
        arg = m.arr(lim)
        if thr[0] == "F":
            arg = np.asfortranarray(arg)
    else:
        lim = [thr] * m.n
        arg = thr
    bnd = None
    active = [1] * m.n
    if bound is not None:
        vals, how = bound
        active = vals
        bnd = m.arr(vals, {"bool": bool, "float": float}.get(how, int))
        if how == "flat":
            bnd = bnd.ravel()
        elif how == "fortran":
            bnd = np.asfortranarray(bnd)
    want = [int(acc[c] >= lim[c] and active[c] != 0) for c in range(m.n)]
    keep = None if bnd is None else bnd.copy()
    ctx.op(4)
    got = b.delineate_streams(arg, basin_boundary=bnd) if bnd is not None \
        else b.delineate_streams(arg)
    require(np.shape(got) == m.shape, "stream array has shape %s", np.shape(got))
    require(ints(got) == want, "streams %s, expected %s", ints(got), want)
    require(bnd is None or np.array_equal(bnd, keep), "the boundary was modified")
    if isinstance(thr, list):
        require(np.array_equal(arg, m.arr(lim)), "the threshold array was modified")
    s = b.stream_array
    require(np.shape(s) == m.shape and ints(s) == want, "stream_array %s, expected %s",
            ints(s), want)
    s[...] = 5
    require(ints(b.stream_array) == want, "stream_array is not a copy")
    # a custom array, flat or shaped, replaces it
    other = [int(i % 2 == 0) for i in range(m.n)]
    b.set_stream_array(np.array(other))
    require(np.shape(b.stream_array) == m.shape and ints(b.stream_array) == other,
            "set_stream_array: %s, expected %s", ints(b.stream_array), other)
    try:
        b.set_stream_array(np.ones(m.n + 1, dtype=int))
        require(False, "an array of the wrong size was accepted")
    except ValueError:
        pass
    require(ints(b.stream_array) == other, "a refused array changed the streams")
    # and delineation replaces a custom array
    again = b.delineate_streams(arg)
    want = [int(acc[c] >= lim[c]) for c in range(m.n)]
    require(ints(again) == want and ints(b.stream_array) == want,
            "delineated again: %s, expected %s", ints(again), want)
    require(ints(net.fa.flow_accumulation_array * 1000) ==
            [int(v * 1000) for v in acc], "flow accumulation was modified")
    return want


def stems(net, p):
    """the main stem upstream of p, one list per resolution of ties"""
    out = []

    todo = [[p]]
    while todo:
        path = todo.pop()
        ups = [n for n in net.m.adj[path[-1]] if net.f[n] == path[-1]]
        if not ups:
            out.append(path)
            continue
        top = max(net.acc[n] for n in ups)
        for n in ups:
            if model.close(net.acc[n], top):
                if n in path:
                    out.append(path)
                else:
                    todo.append(path + [n])
    return out


def run_c13_points(ctx, case):
    mname, z, pts, form, how, thr, which = case
    net = Net(ctx, mname, z, as_cells=how % 2 == 0)
    m = net.m
    b = net.builder(which)
    xy = [inside_point(m, p, how) for p in pts]
    arg = [as_point(p, form) for p in xy]
    ctx.op(2)
    a = b.threshold_from_control_points(arg, thr) if thr else \
        b.threshold_from_control_points(arg)
    require(np.shape(a) == m.shape, "threshold array has shape %s", np.shape(a))
    v = [float(x) for x in np.ravel(a)]
    choice = None
    for combo in itertools.product(*[stems(net, p) for p in pts]):
        stem = set().union(*combo)
        if all(v[c] <= net.acc[c] if c in stem else v[c] == thr for c in range(m.n)):
            choice = stem
            break
    require(choice is not None,
            "control points %s: thresholds %s do not select a main stem of %s "
            "(accumulation %s)", pts, v, [stems(net, p)[:3] for p in pts], net.acc)
    s = ints(b.delineate_streams(a))
    want = [int(c in choice or net.acc[c] >= thr) for c in range(m.n)]
    require(s == want, "streams from control points %s: %s, expected %s", pts, s, want)
    return sorted(choice), net.f


def c13(tier):
    deep = tier == "thorough"
    thrs = (1, 2, 3, 2.5, 100)

    def bounds(n):
        yield None
        yield [[int(c % 3 != 1) for c in range(n)], "int"]
        yield [[2 if c < n // 2 else 0 for c in range(n)], "flat"]
        yield [[int(c != n - 1) for c in range(n)], "bool"]
        yield [[-1 if c % 2 else 0 for c in range(n)], "float"]
        yield [[int(c % 4 != 2) for c in range(n)], "fortran"]
        yield None

    def deline(name, seq):
        n = mesh(name).n
        arr = [[1 + (c % 3) for c in range(n)], [0.5 * c for c in range(n)],
               ["F"] + [1 + c % 4 for c in range(n)]]
        bs = list(bounds(n))
        for z, t, bd, w, ac in gen.cycle_with(seq, thrs + tuple(arr), bs, "65p",
                                              (True, True, False, True, False)):
            yield [name, z, w, ac, t, bd]

    def large():
        for name, z in big(range(3 if not deep else 30), ("rough", "plane", "steps", "nan")):
            yield from deline(name, [z] * 3)
        for name in ("s1x1400", "u1400x1"):
            for o in (0, 700, 1399):
                yield from deline(name, [["terrain", name, 1, o, "plane"]] * 7)

    def variants():
        for name in VARIANTS:
            yield from deline(name, unique_low(mesh(name).n, (0, 1, 2)))

    def s23():
        for _ in range(7 if not deep else 21):
            yield from deline("s2x3w", unique_low(6, (0, 1, 2)))

    def s33():
        yield from deline("v3x3", (z for z in gen.dems(9, (0, 1, 2))
                                   if deep or z.count(0) == 1))
        yield from deline("u3x3", (z for z in gen.dems(9, (0, 1, 2)) if z.count(0) == 1))
        yield from deline("s3x3", (z for z in gen.dems(9, (0, 1)) if True))

    def all_masks():
        # every boundary and every scalar threshold
        for z in ([0, 1, 2, 1, 2, 3], [3, 2, 2, 1, 1, 0]):
            for t in (1, 2, 3, 4, 5, 6, 0):
                for bits in itertools.product((0, 1), repeat=6):
                    for w in "65p":
                        yield ["s2x3", z, w, True, t, [list(bits), "int"]]

    def points(name, seq, sets):
        forms = ("tuple", "shapely", "list", "flopy")
        seq = ((z, p) for z in seq for p in sets)
        for (z, p), form, how, t, w in gen.cycle_with(
                seq, forms, (0, 1, 2, 3, 0), (0, 2, 3.5, 50), "65p"):
            yield [name, z, list(p), form, how, t, w]

    def cp23():
        sets = [(c,) for c in range(6)] + list(itertools.permutations(range(6), 2))
        yield from points("s2x3", unique_low(6, (0, 1, 2)), sets)
        yield from points("s2x3w", (list(p) for p in itertools.permutations(range(6))
                                    if deep or p[0] < 1), sets)

    def cp33():
        sets = [(c,) for c in (0, 4, 8)] + [(0, 8), (2, 3, 4)]
        yield from points("v3x3", (z for z in gen.dems(9, (0, 1, 2)) if z.count(0) == 1),
                          sets)
        yield from points("s3x3", (z for z in gen.dems(9, (0, 1))), sets[:3])

    def cpzoo():
        for name in ("tri:v", "quad:u", "hex:v", "ring:u"):
            n = mesh(name).n
            yield from points(name, (z for z in gen.dems(n, (0, 1, 2))
                                     if deep or hash_sum(z) % 3 == 0),
                              [(0,), (n - 1,), (1, n - 2)])

    def cplarge():
        for name, z in big(range(3 if not deep else 30), ("rough", "plane", "raw")):
            n = mesh(name).n
            yield from points(name, [z], [(n // 2,), (n // 3, n - 4, 7), (0,)])
        for name in ("s1x1200", "u1200x1"):
            for o in (0, 600, 1199):
                yield from points(name, [["terrain", name, 1, o, "plane"]],
                                  [(o,), (100, 300), (5,)])

    def huge():
        for (name, z), t in zip(huge_dems(), (65600, 300)):
            n = mesh(name).n
            yield [name, z, "6", True, t, [[int(c % 3 != 1) for c in range(n)], "int"]]

    def cpvariants():
        for name in VARIANTS:
            n = mesh(name).n
            yield from points(name, (z for z in unique_low(n, (0, 1, 2))
                                     if deep or hash_sum(z) % 3 == 0), [(0,), (n - 1, 2)])

    return [
        Space("large", large, run_c13, "fixed terrains of several hundred cells", chunk=4),
        Space("variants", variants, run_c13, "closed rings, several layers"),
        Space("huge", huge, run_c13, "more than 65536 cells", chunk=1),
        Space("pointslarge", cplarge, run_c13_points, "control points on large terrains",
              chunk=4),
        Space("pointsvariants", cpvariants, run_c13_points, "closed rings, several layers"),
        Space("2x3", s23, run_c13, "2x3 DEMs x thresholds x boundaries, in rotation"),
        Space("3x3", s33, run_c13, "3x3 grids of three types"),
        Space("boundaries", all_masks, run_c13, "every boundary mask x threshold x builder"),
        Space("points2x3", cp23, run_c13_points, "every one or two control points"),
        Space("points3x3", cp33, run_c13_points, "control points on 3x3 grids"),
        Space("pointsmesh", cpzoo, run_c13_points, "control points on irregular meshes"),
    ]


# ------------------------------------------------------------------------- C14
def check_reaches(net, cells, graph, ids, self_loop=True):
    """graph and per cell ids of a one cell per reach network"""
    m, f = net.m, net.f
    cells = set(cells)
    on = {c for c in range(m.n) if ids[c]}
    require(on == cells, "cells %s have reach numbers, stream cells are %s",
            sorted(on), sorted(cells))
    require(sorted(ids[c] for c in cells) == list(range(1, len(cells) + 1)),
            "reach numbers %s", ids)
    require(sorted(int(k) for k in graph) == list(range(1, len(cells) + 1)),
            "reaches in the graph: %s", sorted(graph))
    loop = model.on_cycle(f)
    for c in cells:
        down = f[c]
        if down < 0 or down not in cells or (down == c and not self_loop):
            want = 0
        else:
            want = ids[down]
        require(int(graph[ids[c]]) == want,
                "reach %s (cell %s) flows to reach %s, its flow direction leads to %s",
                ids[c], c, graph[ids[c]], want)
        if want and down != c and c not in loop:
            require(want > ids[c], "reach %s flows to reach %s: numbers must increase",
                    ids[c], want)


def run_c14(ctx, case):
    mname, z, cells, how, terms = case
    net = Net(ctx, mname, z, terms)
    m = net.m
    cells = net.pick(cells)
    which = "p" if how in ("bool", "labels") else "6"
    b = net.builder(which, cells)
    a = stream_array(m, cells, how)
    keep = a.copy()
    ctx.op(2)
    if how in ("int", "float"):
        b.set_stream_array(a)
        graph = b.get_stream_connectivity()
    else:
        graph = b.get_stream_connectivity(a)
    require(np.array_equal(a, keep, equal_nan=a.dtype.kind == "f"),
            "the stream array was modified")
    s = b.stream_array
    require(np.shape(s) == m.shape, "stream array has shape %s", np.shape(s))
    check_reaches(net, cells, graph, ints(s))
    # the same network again
    ctx.op()
    second = b.get_stream_connectivity()
    require(second == graph and np.array_equal(b.stream_array, s),
            "asked again, the connectivity is %s, it was %s", second, graph)
    return sorted((int(k), int(v)) for k, v in graph.items()), ints(s)


def with_arrays(seq, *extra):
    for case, how, *e in gen.cycle_with(seq, ARRAYS, *extra):
        yield case + [how] + e


def c14(tier):
    deep = tier == "thorough"

    def s23():
        yield from with_arrays(fam_masks("s2x3", (0, 1, 2)), ([],))

    def s33():
        yield from with_arrays(fam_binary("v3x3", (0, 4, 5)), ([],))
        yield from with_arrays(fam_sparse("u3x3", (0, 4, 5)), ([],))

    def orders():
        yield from with_arrays(fam_orders("s1x6", 2), ([],))
        yield from with_arrays(fam_orders("hex:v", 1, None if deep else (0, 6)), ([],))
        yield from with_arrays(fam_orders("s2x3", 3), ([], [2], [0, 5]))

    def zoo():
        for name in ("tri:v", "quad:u", "ring:v", "bow:u", "ell:v", "strip:u"):
            yield from with_arrays(fam_binary(name, range(mesh(name).n)), ([],))
            yield from with_arrays(fam_sparse(name, range(mesh(name).n)), ([],))

    def pits():
        yield from with_arrays(fam_pits("s3x3", (0, 1, 2), 1 if deep else 3), ([],))
        yield from with_arrays(fam_pits("v2x4", (0, 1, None), 1 if deep else 2), ([],))

    def s44():
        yield from with_arrays(fam_binary("s4x4", (0, 6), 1 if deep else 8), ([],))

    def long():
        for n in (300, 1500):
            for up in (False, True):
                z = list(range(n)) if up else list(range(n))[::-1]
                yield [f"s1x{n}", z, list(range(n)), "int", []]
                yield [f"u{n}x1", z, [i for i in range(n) if i % 100 != 7], "bool", []]

    return [
        Space("2x3", s23, run_c14, "three level 2x3 DEMs x every stream mask, array "
              "types in rotation"),
        Space("3x3", s33, run_c14, "two levels over an outlet, full and thinned streams"),
        Space("orders", orders, run_c14, "every elevation order of six and seven cells"),
        Space("meshes", zoo, run_c14, "irregular meshes"),
        Space("pits", pits, run_c14, "pits, tied minima, circulating and nan cells"),
        Space("4x4", s44, run_c14, "4x4 networks of sixteen reaches"),
        Space("long", long, run_c14, "chains of 1500 reaches", chunk=2),
        Space("huge", lambda: fam_huge(("int", []), ("nan", [])), run_c14,
              "more than 65536 reaches", chunk=1),
        Space("large", lambda: with_arrays(fam_large(range(4 if not deep else 40)), ([],)),
              run_c14, "fixed terrains of several hundred cells", chunk=4),
        Space("variants", lambda: with_arrays(fam_variants(), ([],)), run_c14,
              "closed rings, several layers"),
    ]


# ------------------------------------------------------------------------- C15
def run_c15(ctx, case):
    mname, z, cells, how, terms = case
    net = Net(ctx, mname, z, terms)
    m, f, z = net.m, net.f, net.z
    cells = net.pick(cells)
    among = set(cells)
    b = net.builder("6", cells)
    a = stream_array(m, cells, how)
    ctx.op(5)
    if how == "labels":
        # package data straight from an array
        pk = b.packagedata(stream_array=a)
        cd = b.connectiondata()
        ids = ints(b.stream_array)
        graph = b.get_stream_connectivity()
    elif how == "bool":
        b.set_stream_array(a)
        cd = b.connectiondata()
        pk = b.packagedata()
        ids = ints(b.stream_array)
        graph = b.get_stream_connectivity()
    else:
        graph = b.get_stream_connectivity(a)
        ids = ints(b.stream_array)
        cd = b.connectiondata(graph) if how == "nan" else b.connectiondata()
        pk = b.packagedata()
    require({c for c in range(m.n) if ids[c]} == among, "reaches in cells %s",
            [c for c in range(m.n) if ids[c]])
    node = {ids[c]: c for c in cells}
    n = len(cells)
    require([int(r[0]) for r in cd] == list(range(n)), "connection records of %s",
            [r[0] for r in cd])
    ups = {r: set() for r in node}
    for r, c in node.items():
        d = f[c]
        if d >= 0 and d in among and d != c:
            ups[ids[d]].add(r)
    for r in range(1, n + 1):
        rec = [int(v) for v in cd[r - 1][1:]]
        c = node[r]
        d = f[c]
        down = ids[d] if d >= 0 and d in among and d != c else None
        want_up = sorted(u - 1 for u in ups[r])
        if down is not None:
            require(rec and rec[-1] == -(down - 1),
                    "reach %s flows to %s but its connections are %s", r - 1, down - 1, rec)
            rec = rec[:-1]
        require(sorted(rec) == want_up, "reach %s has upstream connections %s, expected %s",
                r - 1, sorted(rec), want_up)
    # a graph of another network, its reaches in any order
    ctx.op()
    top = min(3 * n, 9000)
    other = {r: r + 1 + (r * r) % (top - r) if r < top else 0 for r in
             sorted(range(1, top + 1), key=lambda r: (r * 7) % (top + 1))}
    links = {r: set() for r in other}
    for r, d in other.items():
        if d:
            links[r].add(-(d - 1))
            links[d].add(r - 1)
    got = b.connectiondata(other)
    require([int(rec[0]) for rec in got] == list(range(top)) and
            all(sorted(int(v) for v in rec[1:]) == sorted(links[int(rec[0]) + 1])
                for rec in got),
            "connections %s of the graph %s", got, other)
    require(b.connectiondata() == cd, "the graph of another network was kept")
    # package data
    require([int(v) for v in pk["ifno"]] == list(range(n)), "package records %s",
            [int(v) for v in pk["ifno"]])
    slope = [float(v) for v in np.ravel(net.fa.slope)]
    for r in range(1, n + 1):
        rec, c = pk[r - 1], node[r]
        cid = tuple(int(v) for v in rec["cellid"])
        want = {"s": (0,) + divmod(c, getattr(m, "ncol", 1)), "v": (0, c), "u": (c,)}[m.kind]
        require(cid == want, "reach %s is in cell %s, expected %s", r - 1, cid, want)
        require(int(rec["ncon"]) == len(cd[r - 1]) - 1, "reach %s: ncon %s, connections %s",
                r - 1, rec["ncon"], cd[r - 1])
        d = f[c]
        if d >= 0 and d in among and d != c:
            require(model.close(rec["rlen"], 1.5 * m.dist(c, d)),
                    "reach %s has length %s, expected %s", r - 1, rec["rlen"],
                    1.5 * m.dist(c, d))
        else:
            require(rec["rlen"] > 0 and math.isfinite(rec["rlen"]),
                    "outlet reach %s has length %s", r - 1, rec["rlen"])
        require(model.close(rec["rgrd"], slope[c] / 1.5), "reach %s has gradient %s, "
                "expected %s", r - 1, rec["rgrd"], slope[c] / 1.5)
        require(rec["rtp"] == z[c] or (z[c] != z[c] and rec["rtp"] != rec["rtp"]),
                "reach %s has top %s, its cell is at %s", r - 1, rec["rtp"], z[c])
    ctx.op()
    flat = b.packagedata(detuple=True)
    names = {"s": ("k", "i", "j"), "v": ("k", "node"), "u": ("node",)}[m.kind]
    for r in range(n):
        require(tuple(int(flat[k][r]) for k in names) == tuple(pk["cellid"][r]),
                "detupled record %s differs", r)
        for k in ("rlen", "rgrd", "ncon", "ifno"):
            require(flat[k][r] == pk[k][r], "detupled record %s differs in %s", r, k)
    return [tuple(int(v) for v in r) for r in cd], [float(v) for v in pk["rlen"]]


def c15(tier):
    deep = tier == "thorough"

    def s23():
        yield from with_arrays(fam_masks("s2x3w", (0, 1, 2)), ([],))

    def s33():
        yield from with_arrays(fam_binary("v3x3w", (0, 4, 5)), ([],))
        yield from with_arrays(fam_sparse("u3x3r", (0, 4, 5)), ([],))
        yield from with_arrays(fam_binary("s3x3r", (8, 4)), ([],))

    def orders():
        yield from with_arrays(fam_orders("s1x6", 1), ([],))
        yield from with_arrays(fam_orders("hex:v", 1, None if deep else (0,)), ([],))
        yield from with_arrays(fam_orders("v2x3", 2), ([], [2], [0, 5]))

    def zoo():
        for name in ("tri:v", "quad:u", "ring:v", "bow:u", "ell:v", "strip:u"):
            yield from with_arrays(fam_binary(name, range(mesh(name).n)), ([],))
            yield from with_arrays(fam_sparse(name, range(mesh(name).n)), ([],))

    def pits():
        yield from with_arrays(fam_pits("s3x3", (0, 1, 2), 2 if deep else 8), ([],))
        yield from with_arrays(fam_pits("u2x4", (0, 1, None), 2 if deep else 6), ([],))

    return [
        Space("2x3", s23, run_c15, "2x3 uneven grids x every stream mask"),
        Space("3x3", s33, run_c15, "three grid types, uneven and rotated"),
        Space("orders", orders, run_c15, "elevation orders, with terminal cells"),
        Space("meshes", zoo, run_c15, "irregular meshes"),
        Space("pits", pits, run_c15, "pits, circulating and nan cells"),
        Space("large", lambda: with_arrays(itertools.chain(
            fam_rows(1100), fam_large(range(3 if not deep else 30),
                                     ("rough", "plane", "steps"))), ([],)),
              run_c15, "fixed terrains of several hundred cells", chunk=2),
        Space("huge", lambda: fam_huge(("int", []), ("bool", [])), run_c15,
              "more than 65536 reaches", chunk=1),
        Space("variants", lambda: with_arrays(fam_variants(), ([],)), run_c15,
              "closed rings, several layers"),
    ]


# ------------------------------------------------------------------------- C16
def check_segments(net, cells, graph, ids, group, self_loop=False):
    """-> {segment: [cells from top to bottom]}"""
    m, f = net.m, net.f
    cells = set(cells)
    require({c for c in range(m.n) if ids[c]} == cells, "cells %s have segments, stream "
            "cells are %s", [c for c in range(m.n) if ids[c]], sorted(cells))
    graph = {int(k): int(v) for k, v in graph.items()}
    if not group:
        check_reaches(net, cells, graph, ids, self_loop)
        return {ids[c]: [c] for c in cells}
    segs = model.segments(f, cells)
    require(sorted(graph) == list(range(1, len(segs) + 1)),
            "segments %s, the network has %s", sorted(graph), len(segs))
    out = {}
    for start, chain in segs.items():
        i = ids[start]
        require(i not in out, "cells %s and %s start the same segment %s", start,
                out.get(i), i)
        out[i] = chain
        for c in chain:
            require(ids[c] == i, "cell %s is in segment %s, the segment of cell %s is %s",
                    c, ids[c], start, i)
    for i, chain in out.items():
        d = f[chain[-1]]
        want = ids[d] if d >= 0 and d in cells else 0
        require(graph[i] == want, "segment %s (cells %s) flows to %s, expected %s",
                i, chain, graph[i], want)
        require(want in (0, i) or want > i, "segment %s flows to segment %s: numbers must "
                "increase", i, want)
    return out


def run_c16(ctx, case):
    mname, z, cells, how, terms, group, which = case
    net = Net(ctx, mname, z, terms)
    m = net.m
    cells = net.pick(cells)
    if not net.acyclic(cells):
        return None
    b = net.builder(which, cells)
    a = stream_array(m, cells, how)
    keep = a.copy()
    ctx.op(2)
    if how in ("int", "float"):
        b.set_stream_array(a)
        graph = b.get_stream_connectivity(**grouping(group, how, which != "p"))
    else:
        graph = b.get_stream_connectivity(a, **grouping(group, how, which != "p"))
    require(np.array_equal(a, keep, equal_nan=a.dtype.kind == "f"),
            "the stream array was modified")
    s = b.stream_array
    require(np.shape(s) == m.shape, "segment array has shape %s", np.shape(s))
    # without grouping PrmsStreams numbers reaches as Sfr6 does
    check_segments(net, cells, graph, ints(s), group, which == "p")
    ctx.op()
    second = b.get_stream_connectivity(**grouping(group, how, which != "p"))
    require(second == graph and np.array_equal(b.stream_array, s),
            "asked again, the connectivity is %s, it was %s", second, graph)
    return sorted((int(k), int(v)) for k, v in graph.items()), ints(s)


GROUPS = (True, True, False)
WHICH = "55p55"


def fam_nets(deep, kinds, zoo=True):
    """(space name, description, generator) triples shared by C16 - C21"""
    a, b, c = kinds

    def s23():
        yield from fam_masks(f"{a}2x3", (0, 1, 2))

    def s33():
        yield from fam_binary(f"{b}3x3", (0, 4, 5))
        yield from fam_sparse(f"{c}3x3", (0, 4, 5, 8))

    def orders():
        yield from fam_orders(f"{a}1x6", 2)
        yield from fam_orders(f"{b}2x3", 3)

    def s34():
        yield from fam_sparse(f"{a}3x4", (0, 6), 1 if deep else 4)
        yield from fam_binary(f"{b}3x4", (0, 6), 1 if deep else 4)

    def large():
        yield from fam_rows(1100)
        yield from fam_large(range(2 if not deep else 20), ("rough", "plane", "steps"))

    def variants():
        yield from fam_variants()

    out = [("large", large, "fixed terrains of several hundred cells"),
           ("variants", variants, "closed rings, several layers"),
           ("2x3", s23, "three level 2x3 DEMs x every stream mask"),
           ("3x3", s33, "3x3, two levels over an outlet, full and thinned streams"),
           ("orders", orders, "every elevation order of six cells"),
           ("3x4", s34, "3x4, two levels over an outlet")]
    if zoo:
        def meshes():
            for name in ("tri:v", "quad:u", "ring:v", "bow:u", "ell:v", "hex:u", "hang:v"):
                yield from fam_binary(name, range(mesh(name).n))
                yield from fam_sparse(name, range(mesh(name).n))
        out.append(("meshes", meshes, "irregular meshes"))
    return out


def with_options(seq, *options):
    """append array type, terminal cells and further options in rotation"""
    for case, *e in gen.cycle_with(seq, *options):
        yield case + e


TERMS = ([], [], [1], [], [4, 2])


def c16(tier):
    deep = tier == "thorough"

    def wrap(g):
        return lambda: with_options(g(), ARRAYS, TERMS, GROUPS, WHICH)

    def pw(g):
        # PrmsStreams groups with its own default, always pass it
        return wrap(g)

    def long():
        for n in (300, 1200):
            z = list(range(n))
            for zz in (z, z[::-1]):
                for grp in (True, False):
                    yield [f"s1x{n}", zz, [i for i in range(n) if i % 100 != 7], "int", [],
                           grp, "5"]

    return [Space(nm, pw(g), run_c16, what + "; array type, terminals and grouping in "
                  "rotation") for nm, g, what in fam_nets(deep, "svu")] + \
           [Space("long", long, run_c16, "chains of 1200 stream cells"),
            Space("huge", lambda: fam_huge(("int", [], False, "5"), ("flat", [], True, "p")),
                  run_c16, "more than 65536 stream cells", chunk=1)]


# ------------------------------------------------------------------------- C17
def run_c17(ctx, case):
    mname, z, cells, how, terms, group, entry = case
    net = Net(ctx, mname, z, terms)
    m, f, z = net.m, net.f, net.z
    cells = net.pick(cells)
    among = set(cells)
    if not net.acyclic(cells):
        return None
    b = net.builder("5", cells)
    a = stream_array(m, cells, how)
    ctx.op(4)
    if entry == "conn":
        b.get_stream_connectivity(a, **grouping(group, how))
        rd, sd = b.reach_data(), b.segment_data()
    elif entry == "arg":
        rd = b.reach_data(a, **grouping(group, how))
        sd = b.segment_data(a)
    else:
        b.set_stream_array(a)
        sd = b.segment_data(**grouping(group, how))
        rd = b.reach_data(**grouping(group, how))
    ids = ints(b.stream_array)
    graph = {int(s): int(o) for s, o in zip(sd["nseg"], sd["outseg"])}
    require([int(s) for s in sd["nseg"]] == list(range(1, len(graph) + 1)),
            "segment records %s", [int(s) for s in sd["nseg"]])
    chains = check_segments(net, cells, graph, ids, group)
    want = [(s, k + 1, c) for s in sorted(chains) for k, c in enumerate(chains[s])]
    got = [(int(r["iseg"]), int(r["ireach"]), int(r["node"])) for r in rd]
    require(got == want, "reaches (segment, reach, cell) %s, expected %s", got, want)
    delr, delc = m.struct["delr"], m.struct["delc"]
    down = {}
    for s, k, c in want:
        nxt = f[c]
        down[c] = nxt if nxt >= 0 and nxt in among and nxt != c else None
    for ix, (s, k, c) in enumerate(want):
        r = rd[ix]
        i, j = divmod(c, m.ncol)
        require((int(r["k"]), int(r["i"]), int(r["j"])) == (0, i, j),
                "reach in cell %s has indices %s", c, (r["k"], r["i"], r["j"]))
        require(int(r["reachID"]) == ix + 1, "reach %s has ID %s", ix + 1, r["reachID"])
        d = down[c]
        if d is None:
            ln, sl = 1.5 * (delr[j] + delc[i]) / 2, 0.0001
        else:
            ln = 1.5 * m.dist(c, d)
            sl = (z[c] - z[d]) / ln
        require(abs(r["rchlen"] - ln) <= 1e-5 * ln, "reach in cell %s has length %s, "
                "expected %s", c, r["rchlen"], ln)
        require(abs(r["slope"] - sl) <= 1e-5 * max(1, abs(sl)) * (0.01 if d is None else 1),
                "reach in cell %s has slope %s, expected %s", c, r["slope"], sl)
        require(model.close(r["strtop"], z[c], 1e-6), "reach in cell %s has top %s, "
                "expected %s", c, r["strtop"], z[c])
        require(r["strthick"] == 1, "reach in cell %s has thickness %s", c, r["strthick"])
    # the pyGSFLOW object clips slopes and fills the segment defaults
    kw, lo, hi, dflt = {}, 0.0001, 1.0, 0.001
    if entry == "arg":
        lo, hi, dflt = 0.3, 0.9, 0.5
        kw = dict(min_slope=lo, max_slope=hi, default_slope=dflt, strhc1=2.5,
                  roughch=0.04, width1=3)
    ctx.op()
    o = b.get_pygsflow_builder_object(**grouping(group, how), **kw)
    require([(int(r["iseg"]), int(r["ireach"]), int(r["node"])) for r in o.reach_data]
            == want, "the pyGSFLOW object has other reaches")
    for ix, (s, k, c) in enumerate(want):
        d = down[c]
        sl = dflt if d is None else (z[c] - z[d]) / m.dist(c, d)
        sl = min(max(sl, lo), hi)
        r = o.reach_data[ix]
        require(abs(r["slope"] - sl) <= 1e-6 * max(1, sl) + 1e-9,
                "pyGSFLOW slope of cell %s is %s, expected %s", c, r["slope"], sl)
        require(model.close(r["strtop"], z[c], 1e-6), "pyGSFLOW top of cell %s", c)
        require(model.close(r["strhc1"], kw.get("strhc1", 1.0), 1e-6) and
                model.close(r["strthick"], 1.0), "pyGSFLOW bed of cell %s", c)
    seg = dict(etsw=0, flow=1, icalc=1, iprior=0, pptsw=0, roughch=0.025, runoff=0,
               width1=10, width2=10)
    for k in seg:
        v = kw.get(k, seg[k])
        require(all(model.close(float(x), v, 1e-6) for x in o.segment_data[k]),
                "pyGSFLOW %s is %s, expected %s", k, list(o.segment_data[k]), v)
    require({int(s): int(t) for s, t in
             zip(o.segment_data["nseg"], o.segment_data["outseg"])} == graph,
            "the pyGSFLOW object has other segments")
    return want, sorted(graph.items())


def c17(tier):
    deep = tier == "thorough"
    entries = ("conn", "arg", "set", "conn", "set")

    def wrap(g, every=1):
        return lambda: gen.every(
            with_options(g(), ARRAYS, TERMS, GROUPS, entries), every)

    def steep():
        # slopes beyond both clip limits
        for z in unique_low(6, (0, 0.00005, 1, 50)):
            for e in entries[:2]:
                yield ["s2x3w", z, list(range(6)), "int", [], True, e]

    sp = [Space(nm, wrap(g), run_c17, what + "; array type, terminals, grouping and entry "
                "point in rotation")
          for nm, g, what in [
              ("2x3", lambda: fam_masks("s2x3w", (0, 1, 2), 1 if deep else 2),
               "2x3 uneven grid x stream masks"),
              ("3x3", lambda: itertools.chain(
                  fam_binary("s3x3r", (0, 4, 5)), fam_sparse("s3x3w", (0, 4, 5, 8))),
               "3x3 rotated and uneven grids"),
              ("orders", lambda: itertools.chain(
                  fam_orders("s1x6", 2), fam_orders("s2x3", 2)),
               "every elevation order of six cells"),
              ("3x4", lambda: fam_sparse("s3x4w", (0, 6), 1 if deep else 4),
               "3x4 uneven grid"),
              ("large", lambda: itertools.chain(
                  (c for c in fam_rows(1100, False)),
                  fam_large(range(5 if not deep else 40), ("rough", "plane", "steps"),
                            ("s18x20", "s25x15w", "s9x40r", "s20x20l"))),
               "fixed terrains of several hundred cells"),
              ("variants", lambda: fam_variants(
                  1, ("s2x3m", "s2x3dw", "s2x3mr", "s3x2mw")), "map and degree coordinates"),
              ("layers", lambda: itertools.chain(
                  fam_masks("s2x3l", (0, 1, 2), 5), fam_binary("s3x3l", (0, 4))),
               "several layers")]]
    return sp + [Space("steep", steep, run_c17, "slopes beyond the clip limits"),
                 Space("huge", lambda: fam_long(("int", [], False, "arg")), run_c17,
                       "more than 32768 reaches", chunk=1)]


# ------------------------------------------------------------------------- C18
def run_c18(ctx, case):
    mname, z, cells, how, terms, group, entry = case
    net = Net(ctx, mname, z, terms)
    m = net.m
    cells = net.pick(cells)
    b = net.builder("5", cells)
    a = stream_array(m, cells, how)
    ctx.op(2)
    if entry == "conn":
        b.get_stream_connectivity(a, **grouping(group, how))
        r = b.irunbnd()
    elif entry == "arg":
        r = b.irunbnd(a, **grouping(group, how))
    elif entry == "graph":
        g = b.get_stream_connectivity(a, **grouping(group, how))
        r = b.irunbnd(b.stream_array, g)
    elif entry == "own":
        # segments that the user numbered
        g = b.get_stream_connectivity(a, **grouping(group, how))
        own = np.where(b.stream_array > 0, 3 * b.stream_array + 40, 0)
        if how == "float":
            own = own.astype(float)
        r = b.irunbnd(own, {3 * k + 40: 3 * v + 40 if v else 0 for k, v in g.items()})
    else:
        b.set_stream_array(a)
        r = b.irunbnd(**grouping(group, how))
    require(np.shape(r) == m.shape, "irunbnd has shape %s", np.shape(r))
    r, ids = ints(r), ints(b.stream_array)
    if entry == "own":
        ids = [3 * v + 40 if v else 0 for v in ids]
    among = set(cells)
    first = model.all_first_downstream(net.f, among) if m.n > 100 else None
    for c in range(m.n):
        d = first[c] if first else model.first_downstream(net.f, among, c)
        want = 0 if d is None else ids[d]
        require(r[c] == want, "cell %s runs off to segment %s; its first stream cell "
                "downstream is %s in segment %s", c, r[c], d, want)
    return r


def c18(tier):
    deep = tier == "thorough"
    entries = ("conn", "arg", "set", "graph", "own", "conn", "arg")

    def wrap(g):
        return lambda: with_options(g(), ARRAYS, TERMS, GROUPS, entries)

    def some():
        for name in ("s3x3", "v3x3"):
            for z in gen.dems(8, (1, 2)):
                for s in ([0], [0, 4], [8, 4], [1, 3, 5, 7], [2, 6]):
                    yield [name, [0] + z, s]

    def pits():
        for nm, z, s in fam_pits("s3x3", (0, 1, 2), 2 if deep else 5):
            yield [nm, z, [c for c in s if (c + z[0]) % 3 == 0]]
        for nm, z, s in fam_pits("v2x4", (0, 1, None), 2 if deep else 4):
            yield [nm, z, [c for c in s if c % 3 == 0]]

    return [Space(nm, wrap(g), run_c18, what) for nm, g, what in fam_nets(deep, "svu")] + [
        Space("huge", lambda: fam_long(("int", [], False, "conn")), run_c18,
              "more than 32768 stream cells", chunk=1),
        Space("few", wrap(some), run_c18, "few stream cells, most of the grid hillslope"),
        Space("pits", wrap(pits), run_c18, "pits, circulating and nan cells")]


# -------------------------------------------------------------------- C19, C20
def link_target(net, c, active):
    """where a cell's single cascade goes: downstream, or itself at an outlet"""
    d = net.f[c]
    if d < 0 or not active[d]:
        return c
    return d


BOUNDS = ("int", "bool", "labels", "float", "flat", "negative", "uint8", "half", "fortran")


def active_cells(m, bound):
    if bound is None:
        return [1] * m.n
    if bound and bound[0] == "skip":
        return [int(c % bound[1] != bound[2]) for c in range(m.n)]
    return [int(c not in bound) for c in range(m.n)]


def boundary_array(m, active, how):
    """the same boundary as the arrays users pass; active cells are not zero"""
    a = np.zeros(m.n, dtype={"bool": bool, "float": float, "half": float,
                             "uint8": np.uint8}.get(how, int))
    for c in range(m.n):
        if active[c]:
            a[c] = {"labels": 1 + c % 3, "negative": -1 - c % 2, "half": 0.5,
                    "uint8": 2 + c % 7}.get(how, 1)
    if how == "fortran":
        return np.asfortranarray(a.reshape(m.shape))
    return a if how == "flat" else a.reshape(m.shape)


def cascades(ctx, net, cells, how, active, entry, many, group, bhow="int"):
    m = net.m
    b = net.builder("p", cells)
    bnd = keep = None
    if active is not None:
        bnd = boundary_array(m, active, bhow)
        keep = bnd.copy()
    a = stream_array(m, cells, how)
    kw = dict(many2many=many) if many else {}
    if bnd is not None:
        kw["basin_boundary"] = bnd
    ctx.op(2)
    if entry == "conn":
        b.get_stream_connectivity(a, **grouping(group, how, False))
        out = b.get_cascades(**kw)
    elif entry == "arg":
        out = b.get_cascades(a, **grouping(group, how, False), **kw)
    else:
        b.set_stream_array(a)
        group = False
        out = b.get_cascades(**kw)
    require(bnd is None or np.array_equal(bnd, keep), "the boundary was modified")
    up, down, pct, seg = out
    n = len(up)
    require(len(down) == n and len(pct) == n and len(seg) == n,
            "cascade arrays of different length")
    ids = ints(b.stream_array)
    links = {}
    for u, d, p, s in zip(up, down, pct, seg):
        u, d = int(u) - 1, int(d) - 1
        require(0 <= u < m.n and 0 <= d < m.n, "cascade %s -> %s leaves the grid", u + 1, d + 1)
        require(int(s) == ids[d], "cascade %s -> %s enters segment %s, the segment of cell "
                "%s is %s", u + 1, d + 1, int(s), d + 1, ids[d])
        links.setdefault(u, []).append((d, float(p)))
    return links, ids


def run_c19(ctx, case):
    mname, z, cells, how, terms, group, entry, bound = case[:8]
    bhow = case[8] if len(case) > 8 else "int"
    net = Net(ctx, mname, z, terms)
    m = net.m
    cells = net.pick(cells)
    active = active_cells(m, bound)
    if not any(active):
        return None
    links, ids = cascades(ctx, net, cells, how, None if bound is None else active, entry,
                          False, group, bhow)
    require({c for c in range(m.n) if ids[c]} == set(cells), "stream cells %s",
            [c for c in range(m.n) if ids[c]])
    require(set(links) == {c for c in range(m.n) if active[c]},
            "cells %s have cascades, active cells are %s", sorted(links),
            [c for c in range(m.n) if active[c]])
    dup = 0
    into = {}
    for o in range(m.n):
        if active[o]:
            t = net.f[o] if net.f[o] >= 0 else o
            into[t] = into.get(t, 0) + 1
    for c, ls in links.items():
        want = link_target(net, c, active)
        require({d for d, _ in ls} == {want}, "cell %s cascades to %s, expected %s",
                c, sorted({d for d, _ in ls}), want)
        require(all(p == 1.0 for _, p in ls), "cell %s cascades fractions %s", c,
                [p for _, p in ls])
        if len(ls) > 1:
            t = net.f[c] if net.f[c] >= 0 else c
            k = into[t]
            require(len(ls) == k, "cell %s has %s identical cascades", c, len(ls))
            dup += 1
    if dup:
        ctx.finding("many2one-duplicate-links",
                    f"{dup} cells have their only cascade more than once")
    return sorted((c, ls[0][0]) for c, ls in links.items())


def run_c20(ctx, case):
    mname, z, cells, how, terms, group, entry, bound = case[:8]
    bhow = case[8] if len(case) > 8 else "int"
    net = Net(ctx, mname, z, terms)
    m, z = net.m, net.z
    cells = set(net.pick(cells))
    active = active_cells(m, bound)
    if not any(active):
        return None
    links, ids = cascades(ctx, net, cells, how, None if bound is None else active, entry,
                          True, group, bhow)
    require(set(links) == {c for c in range(m.n) if active[c]},
            "cells %s have cascades, active cells are %s", sorted(links),
            [c for c in range(m.n) if active[c]])
    for c, ls in links.items():
        got = dict(ls)
        require(len(got) == len(ls), "cell %s has repeated cascades %s", c, ls)
        require(abs(sum(got.values()) - 1) < 1e-9, "fractions of cell %s: %s", c, got)
        require(all(active[d] for d in got), "cell %s cascades out of the boundary: %s", c, got)
        one = {link_target(net, c, active): 1.0}
        if c in cells:
            require(got == one, "stream cell %s cascades to %s, expected %s", c, got, one)
            continue
        s = {n: -v for n, v in model.slopes(m, z, c).items() if v < 0 and active[n]} \
            if z[c] == z[c] else {}
        tot = sum(s.values())
        s = {n: v for n, v in s.items() if v / tot > 0.01}
        tot = sum(s.values())
        want = {n: v / tot for n, v in s.items()} or one
        require(set(got) == set(want), "cell %s cascades to %s, its downslope cells are %s",
                c, sorted(got), sorted(want))
        for n in want:
            require(abs(got[n] - want[n]) < 1e-9, "cell %s gives %s to cell %s, expected %s",
                    c, got[n], n, want[n])
    return sorted((c, round(d, 9), round(p, 9)) for c, ls in links.items() for d, p in ls)


def cascade_bounds(n):
    return (None, [0], None, [n - 1, 1], None, [c for c in range(n) if c % 3 == 2],
            list(range(n // 2))) if n < 100 else \
        (None, ["skip", 3, 1], ["skip", 2, 0], [0, 1, n - 1])


def cascade_spaces(run, deep):
    entries = ("conn", "arg", "set", "arg", "conn")

    def wrap(g):
        def it():
            for i, (case, how, terms, grp, e, bh) in enumerate(gen.cycle_with(
                    g(), ARRAYS, TERMS, GROUPS + (True,), entries, BOUNDS + ("int",))):
                bs = cascade_bounds(mesh(case[0]).n)
                yield case + [how, terms, grp, e, bs[i % len(bs)], bh]
        return it

    def bounds():
        # every boundary of a 2x3 grid
        for z in ([0, 1, 2, 1, 2, 3], [2, 3, 1, 5, 0, 4], [1, 1, 1, 1, 1, 0], [3, 1, 3, 2, 0, 2],
                  [5, 4, 3, 2, 1, 0], [0, 9, 1, 9, 2, 9]):
            for k in range(0, 6):
                for b in itertools.combinations(range(6), k):
                    for s in ([0], [4], [1, 2, 4], list(range(6))):
                        for grp, e in ((True, "conn"), (False, "arg")):
                            yield ["s2x3", z, s, "int", [], grp, e, list(b),
                                   BOUNDS[(sum(b) + k + len(s)) % len(BOUNDS)]]

    def few():
        # mostly hillslope cells
        for name in ("s3x3", "v3x3w"):
            for z in unique_low(9, (0, 1, 2)):
                if z.count(0) == 1 and (deep or hash_sum(z) % 2):
                    yield [name, z, [z.index(0)]]

    def weights():
        for z in unique_low(6, (0, 1, 3, 300)):
            yield ["s2x3w", z, [z.index(min(z))]]

    def percent():
        # fractions just below, at and just above one percent; a row, so that
        # sums of slopes do not depend on their order
        for z in unique_low(5, (0, 1, 99, 99.25, 100)):
            if deep or hash_sum(z) % 2:
                yield ["s1x5", z, [z.index(0)] if 0 in z else [0]]
        for i, z in enumerate(unique_low(5, (0, 2, 197.5, 198, 200))):
            if deep or i % 3 == 0:
                yield ["u5x1", z, [z.index(min(z))]]

    def pits():
        yield from fam_pits("s3x3", (0, 1, 2), 2 if deep else 6)
        for nm, z, s in fam_pits("v2x4", (0, 1, None), 1 if deep else 3):
            yield [nm, z, [c for c in s if c % 3 == 0]]

    return [Space(nm, wrap(g), run, what + "; boundaries, terminals, grouping and entry "
                  "point in rotation") for nm, g, what in fam_nets(deep, "svu")] + [
        Space("huge", lambda: fam_huge(("int", [], False, "conn", ["skip", 5, 2]),
                                       ("bool", [], True, "arg", None)), run,
              "more than 65536 cells", chunk=1),
        Space("boundaries", bounds, run, "every boundary of a 2x3 grid"),
        Space("few", wrap(few), run, "one stream cell, the rest hillslope"),
        Space("weights", wrap(weights), run, "slopes of very different size"),
        Space("percent", wrap(percent), run, "fractions around one percent"),
        Space("pits", wrap(pits), run, "pits, flats and nan cells")]


def c19(tier):
    return cascade_spaces(run_c19, tier == "thorough")


def c20(tier):
    return cascade_spaces(run_c20, tier == "thorough")


# ------------------------------------------------------------------------- C21
def run_c21(ctx, case):
    mname, z, cells, how, terms, group, which = case
    net = Net(ctx, mname, z, terms)
    m = net.m
    cells = net.pick(cells)
    if not net.acyclic(cells):
        return None
    b = net.builder(which, cells)
    a = stream_array(m, cells, how)
    keep = a.copy()
    ctx.op(3)
    if how in ("int", "float", "bool"):
        b.set_stream_array(a)
        vec = b.create_stream_vectors(**grouping(group, how))
    else:
        vec = b.create_stream_vectors(a, **grouping(group, how))
    require(np.array_equal(a, keep, equal_nan=a.dtype.kind == "f"),
            "the stream array was modified")
    ref = Net(ctx, mname, z, terms).builder("5")
    graph = ref.get_stream_connectivity(a, **grouping(group, how))
    ids = ints(ref.stream_array)
    chains = check_segments(net, cells, graph, ids, group)
    require(set(int(k) for k in vec) <= set(chains), "vectors of unknown segments %s",
            sorted(vec))
    for s, chain in chains.items():
        out = int(graph[s])
        nodes = list(chain)
        if out:
            nodes.append(chains[out][0])
        got = vec.get(s)
        if len(set(nodes)) == 1:
            # a single cell has no line
            require(got is None or all(
                model.close(x, m.xc[chain[0]]) and model.close(y, m.yc[chain[0]])
                for x, y in got), "segment %s of one cell has the line %s", s, got)
            continue
        require(got is not None, "segment %s (cells %s) has no line", s, nodes)
        want = [(m.xc[c], m.yc[c]) for c in nodes]
        same = len(got) == len(want) and all(
            model.close(float(p[0]), q[0]) and model.close(float(p[1]), q[1])
            for p, q in zip(got, want))
        if not same and out == s:
            same = len(got) == len(want) - 1 and all(
                model.close(float(p[0]), q[0]) and model.close(float(p[1]), q[1])
                for p, q in zip(got, want))
        require(same, "segment %s follows %s, its cells are at %s", s,
                [tuple(float(v) for v in p) for p in got], want)
    return sorted(chains.items()), group


def c21(tier):
    deep = tier == "thorough"

    def wrap(g):
        return lambda: with_options(g(), ARRAYS, TERMS, (True, False), "565p5")

    def rot():
        yield from fam_sparse("s3x3r", range(9))
        yield from fam_binary("v3x3r", (2, 6))

    return [Space(nm, wrap(g), run_c21, what) for nm, g, what in fam_nets(deep, "svu")] + [
        Space("huge", lambda: fam_long(("int", [], False, "5")), run_c21,
              "more than 32768 stream cells", chunk=1),
        Space("rotated", wrap(rot), run_c21, "rotated and offset grids")]


# ------------------------------------------------------------------------- C22
HIST_OPS = {
    "6": ("del1", "del2", "set", "conn", "connA", "cd", "pk", "pkA", "vec", "vecB"),
    "5": ("del1", "del2", "set", "connT", "connF", "connAT", "connBF", "rd", "rdA", "sd",
          "sdB", "ir", "irA", "bld", "vec", "vecB"),
    "p": ("del1", "del2", "set", "connT", "connF", "connAF", "connBT", "cas", "casA",
          "casM", "vec", "vecB", "pbld"),
}


def canon(x):
    """comparable form of any result"""
    if x is None:
        return None
    if isinstance(x, dict):
        return sorted((int(k), canon(v)) for k, v in x.items())
    if isinstance(x, (PygsflowStreams, PygsflowCascades)):
        return [(k, canon(v)) for k, v in sorted(vars(x).items())]
    if isinstance(x, np.ndarray) and x.dtype.names:
        return [(k, [str(v) for v in x[k]]) for k in x.dtype.names]
    if isinstance(x, np.ndarray):
        return [x.shape, [str(v) for v in x.ravel()]]
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    return str(x)


def hist_apply(b, op, A, B):
    """-> (result, new (mask, grouping) or None when the state stays)"""
    if op == "del1":
        return b.delineate_streams(2), ("D2", None)
    if op == "del2":
        return b.delineate_streams(3), ("D3", None)
    if op == "set":
        return b.set_stream_array(A.copy()), ("A", None)
    if op.startswith("conn"):
        rest = op[4:]
        arr = {"A": A, "B": B}.get(rest[:1])
        grp = {"T": True, "F": False}.get(rest[-1:])
        kw = {} if grp is None else dict(group_segments=grp)
        r = b.get_stream_connectivity(arr, **kw) if arr is not None else \
            b.get_stream_connectivity(**kw)
        return r, (rest[0] if arr is not None else "=", grp if grp is not None else "6")
    if op == "cd":
        return b.connectiondata(), ("=", "?6")
    if op in ("pk", "pkA"):
        if op == "pk":
            return b.packagedata(), ("=", "?6")
        return b.packagedata(A), ("A", "6")
    if op == "vec":
        return b.create_stream_vectors(), None
    if op == "vecB":
        return b.create_stream_vectors(B), None
    if op in ("rd", "rdA"):
        return (b.reach_data(), ("=", "?T")) if op == "rd" else (b.reach_data(A), ("A", "?T"))
    if op in ("sd", "sdB"):
        return (b.segment_data(), ("=", "?T")) if op == "sd" else \
            (b.segment_data(B), ("B", "?T"))
    if op in ("ir", "irA"):
        return (b.irunbnd(), ("=", "?T")) if op == "ir" else (b.irunbnd(A), ("A", "?T"))
    if op == "bld":
        return b.get_pygsflow_builder_object(), ("=", "?T")
    if op == "cas":
        return b.get_cascades(), ("=", "?F")
    if op == "casA":
        return b.get_cascades(A), ("A", "?F")
    if op == "casM":
        return b.get_cascades(many2many=True), ("=", "?F")
    if op == "pbld":
        return b.get_pygsflow_builder_object(group_segments=False), ("=", False)
    raise ValueError(op)


def hist_next(state, spec, same):
    """reference state: (which mask, how it is connected or None)"""
    if spec is None:
        return state
    mask, grp = spec
    if mask == "=":
        mask = state[0]
    if isinstance(grp, str) and grp.startswith("?"):
        # keeps existing connectivity of the same stream cells
        if state is not None and state[1] is not None and same(mask, state[0]):
            return (state[0], state[1])
        grp = {"6": "6", "T": True, "F": False}[grp[1]]
    return (mask, grp)


_HREF = {}


def hist_fresh(ctx, table, which, masks_, state, op):
    """the result of op on a new object brought directly into the state"""
    mname, z = table[:2]
    key = (str(table), which, state, op)
    if key not in _HREF:
        if len(_HREF) > 20000:
            _HREF.clear()
        _HREF[key] = core.pristine(ctx, hist_new, mname, z, which, masks_, state, op)
    return _HREF[key]


def hist_new(ctx, mname, z, which, masks_, state, op):
    net = Net(ctx, mname, z)
    b = net.builder(which)
    mask, grp = state
    b.set_stream_array(masks_[mask].copy())
    if grp == "6":
        b.get_stream_connectivity()
    elif grp is not None:
        b.get_stream_connectivity(group_segments=grp)
    sa = b.stream_array
    r = None if op is None else \
        canon(hist_apply(b, op, masks_["A"].copy(), masks_["B"].copy())[0])
    return r, canon(sa)


def run_c22(ctx, case):
    mname, z, which, ops, Ac, Bc, how = case
    table = mname, z, Ac, Bc, how
    net = Net(ctx, mname, z)
    m = net.m
    b = net.builder(which)
    M = {"A": stream_array(m, Ac, how), "B": stream_array(m, Bc, "int"),
         "D2": m.arr([int(v >= 2) for v in net.acc], int),
         "D3": m.arr([int(v >= 3) for v in net.acc], int)}

    def same(p, q):
        return np.array_equal(M[p] != 0, M[q] != 0)

    state = None
    given = []
    for i, op in enumerate(ops):
        ctx.op()
        A, B = M["A"].copy(), M["B"].copy()
        got, spec = hist_apply(b, op, A, B)
        given.append((op, got, canon(got)))
        require(np.array_equal(A, M["A"]) and np.array_equal(B, M["B"]),
                "%s modified the stream array it was given", op)
        state = hist_next(state, spec, same)
        before = state if spec is None else None
        if op not in ("del1", "del2", "set"):
            # the state the operation starts from decides its result, and
            # running it in the state it leads to gives the same result
            want, _ = hist_fresh(ctx, table, which, M, before or state, op)
            require(canon(got) == want, "after %s, %s on builder %s gives %s; a new object "
                    "gives %s", ops[:i], op, which, canon(got), want)
        _, sa = hist_fresh(ctx, table, which, M, state, None)
        require(canon(b.stream_array) == sa, "after %s the stream array is %s, expected %s",
                ops[:i + 1], canon(b.stream_array), sa)
    for i, (op, raw, was) in enumerate(given):
        require(canon(raw) == was, "the result of %s, call %s of %s, became %s later; it was "
                "%s", op, i, ops, canon(raw), was)
    return state, canon(b.stream_array)


def c22(tier):
    deep = tier == "thorough"
    nets = [("s2x4", [3, 2, 1, 0, 4, 3, 3, 2], [0, 1, 2, 3, 6], [1, 4, 5, 3], "int"),
            ("s3x3", [4, 3, 2, 4, 2, 1, 5, 2, 0], [2, 4, 5, 7, 8], [0, 4, 8, 6], "int"),
            ("s3x3", [1, 2, 1, 2, 0, 2, 1, 2, 1], [0, 4, 2], [1, 3, 4, 5], "int")]
    # A marks the cells of B and others, which it marks with fractions or
    # negative numbers
    other = [("s2x4", [3, 2, 1, 0, 4, 3, 3, 2], [0, 1, 4, 2, 6, 3], [1, 2, 3], "half"),
             ("s3x3", [4, 3, 2, 4, 2, 1, 5, 2, 0], [1, 0, 2, 5, 4, 8], [1, 5, 8], "negative")]

    def seqs(which, depth, tables):
        ops = HIST_OPS[which]
        starts = [o for o in ops if o[:3] in ("del", "set") or o in
                  ("connA", "connAT", "connBF", "connAF", "connBT", "pkA", "rdA", "sdB",
                   "irA")]
        for name, z, A, B, how in tables:
            for first in starts:
                for rest in itertools.product(ops, repeat=depth - 1):
                    yield [name, z, which, [first] + list(rest), A, B, how]

    d = 1 if deep else 0
    return [
        Space("mf6", lambda: seqs("6", 4 + d, nets if not deep else nets[:2]), run_c22,
              "every history of four (thorough: five) operations on Sfr6", pristine=True),
        Space("mf2005", lambda: seqs("5", 3 + d, nets), run_c22,
              "every history of three (thorough: four) operations on Sfr2005", pristine=True),
        Space("prms", lambda: seqs("p", 3 + d, nets), run_c22,
              "every history of three (thorough: four) operations on PrmsStreams", pristine=True),
    ] + ([] if deep else [
        Space("mf2005-4", lambda: gen.every(seqs("5", 4, nets[:1]), 5), run_c22,
              "every fifth history of four operations on Sfr2005", pristine=True),
        Space("prms-4", lambda: gen.every(seqs("p", 4, nets[1:2]), 3), run_c22,
              "every third history of four operations on PrmsStreams", pristine=True),
    ]) + [
        Space("values-%s" % w, lambda w=w: seqs(w, 3, other), run_c22,
              "every history of three operations, with stream arrays of fractions and of "
              "negative numbers", pristine=True) for w in "65p"]


# ------------------------------------------------------------------------- C23
def run_c23(ctx, case):
    labels, parents, backwards = case
    # the number of segments may be given
    t = Topology(len(labels)) if sum(parents) % 2 else Topology()
    pairs = [(labels[i], 0 if p < 0 else labels[p]) for i, p in enumerate(parents)]
    if backwards == 2:
        # the network is corrected: the last connection of a segment counts
        for i, a in enumerate(labels[:len(pairs)]):
            t.add_connection(a, 0 if i % 2 else labels[(i + 1) % len(pairs)])
    for a, b in (reversed(pairs) if backwards == 1 else pairs):
        t.add_connection(a, b)
    ctx.op()
    order = list(t.sort())
    require(sorted(order) == sorted(labels), "%s sorted as %s", pairs, order)
    pos = {v: i for i, v in enumerate(order)}
    fd = [i if p < 0 else p for i, p in enumerate(parents)]
    loop = model.on_cycle(fd)
    for i, p in enumerate(parents):
        if p >= 0 and p != i and i not in loop:
            require(pos[labels[i]] < pos[labels[p]], "%s flows to %s but is sorted after "
                    "it: %s", labels[i], labels[p], order)
    require(dict(t.topology) == dict(pairs), "sorting changed the network")
    ctx.op()
    require(list(t.sort()) == order, "sorted again differently")
    # as many segments, connected differently: everything moves up one step
    second = {a: (labels + [0])[i + 1] if i % 2 else 0 for i, a in enumerate(labels)}
    for a in second:
        t.add_connection(a, second[a])
    ctx.op()
    again = list(t.sort())
    require(sorted(again) == sorted(labels), "%s sorted as %s", second, again)
    for a, b in second.items():
        require(b == 0 or again.index(a) < again.index(b), "%s was made to flow to %s but is "
                "sorted after it: %s", a, b, again)
    return tuple(order)


def run_c23_long(ctx, case):
    n, shape, labelled = case
    if shape == "chain":
        par = [i + 1 for i in range(n - 1)] + [-1]
    elif shape == "comb":
        par = [i + 2 if i % 2 == 0 else i + 1 for i in range(n - 2)] + [-1, -1]
    elif shape == "twochains":
        h = n // 2
        par = [i + 1 if i != h else n - 1 for i in range(n - 1)] + [-1]
    else:
        par = [i // 2 - 1 if i else -1 for i in range(n)]
        par = [p if p != i else -1 for i, p in enumerate(par)]
    lab = list(range(1, n + 1))
    if labelled == "down":
        lab = lab[::-1]
    elif labelled == "mixed":
        k = next(k for k in range(7, 100) if math.gcd(k, n) == 1)
        lab = [1 + (i * k) % n for i in range(n)]
    t = Topology(n) if labelled == "down" else Topology()
    for i, p in enumerate(par):
        t.add_connection(lab[i], 0 if p < 0 else lab[p])
    ctx.op()
    order = list(t.sort())
    require(sorted(order) == sorted(lab), "not every segment is sorted once")
    pos = {v: i for i, v in enumerate(order)}
    for i, p in enumerate(par):
        require(p < 0 or pos[lab[i]] < pos[lab[p]], "%s flows to %s but is sorted after it",
                lab[i], lab[p] if p >= 0 else 0)
    return n, shape, labelled, hash(tuple(order))


def c23(tier):
    deep = tier == "thorough"

    def graphs(n, labels, pick=1):
        for i, p in enumerate(itertools.product(range(-1, n), repeat=n)):
            if i % pick == 0:
                yield [labels[:n], list(p), i % 3]

    def small():
        for n in range(1, 6):
            yield from graphs(n, [1, 2, 3, 4, 5])
        for n in range(1, 6):
            yield from graphs(n, [9, 2, 30, 4, 7])

    def six():
        yield from graphs(6, [3, 1, 6, 2, 5, 4])

    def forests7():
        # no cell flows to itself or in a circle
        for i, p in enumerate(itertools.product(range(-1, 7), repeat=7)):
            if not deep and i % 7:
                continue
            if len(model.on_cycle([j if q < 0 else q for j, q in enumerate(p)])) == 0:
                yield [[7, 3, 5, 1, 6, 2, 4], list(p), i % 2 == 1]

    def long():
        for n in (500, 1100, 3000) if not deep else (500, 1100, 3000, 20000):
            for shape in ("chain", "comb", "twochains", "tree"):
                for lab in ("up", "down", "mixed"):
                    yield [n, shape, lab]

    return [
        Space("small", small, run_c23, "every network (also circular) of up to five segments"),
        Space("six", six, run_c23, "every network of six segments, mixed labels"),
        Space("seven", forests7, run_c23, "networks of seven segments without circles "
              "(quick: every seventh)"),
        Space("long", long, run_c23_long, "chains, combs and trees of up to 3000 segments",
              chunk=2),
    ]


# ------------------------------------------------------------------------- C24
def same_value(a, b):
    if isinstance(a, np.ndarray) and a.dtype.names:
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and all(
            np.array_equal(a[k], b[k]) or
            (a[k].dtype.kind == "f" and np.array_equal(a[k], b[k], equal_nan=True))
            for k in a.dtype.names)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and \
            np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    return type(a) is type(b) and a == b


def run_c24(ctx, case):
    import pathlib

    mname, z, cells, how, terms, group, many, bound, pathlike, bhow = case
    net = Net(ctx, mname, z, terms)
    m = net.m
    cells = net.pick(cells)
    a = stream_array(m, cells, how)
    bnd = None if bound is None else boundary_array(m, active_cells(m, bound), bhow)
    if bnd is not None and not bnd.any():
        return None
    ctx.op(7)
    b = net.builder("p")
    o = b.get_pygsflow_builder_object(a, basin_boundary=bnd, **grouping(group, how),
                                      **(dict(many2many=many) if many else {}))
    r = Net(ctx, mname, z, terms).builder("p")
    conn = r.get_stream_connectivity(a, **grouping(group, how, False))
    up, down, pct, seg = r.get_cascades(basin_boundary=bnd, many2many=many)
    for k, v in (("hru_up_id", up), ("hru_down_id", down), ("hru_pct_up", pct),
                 ("hru_strmseg_down_id", seg), ("hru_slope", np.ravel(net.fa.slope)),
                 ("hru_aspect", np.ravel(net.fa.aspect)), ("hru_area", np.ravel(net.fa.area))):
        require(np.array_equal(getattr(o, k), v), "%s of the cascade object is %s, expected %s",
                k, np.asarray(getattr(o, k)).tolist(), np.asarray(v).tolist())
    for k, v in (("ncascade", len(up)), ("nreaches", len(cells)), ("nsegments", len(conn)),
                 ("cascade_flag", 0 if many else 1), ("dany_flag", True)):
        require(getattr(o, k) == v, "%s of the cascade object is %s, expected %s",
                k, getattr(o, k), v)
    objs = [o]
    if m.kind == "s" and net.acyclic(cells):
        b5 = net.builder("5")
        b5.get_stream_connectivity(a, **grouping(group, how))
        s = b5.get_pygsflow_builder_object(**grouping(group, how))
        require(len(s.reach_data) == len(cells), "%s reaches", len(s.reach_data))
        require(same_value(s.irunbnd, b5.irunbnd()), "irunbnd of the stream object differs")
        rd, sd = b5.reach_data(), b5.segment_data()
        ib = np.full(m.shape, 3)
        rd["strhc1"], sd["icalc"], sd["flow"] = 9.5, 3, 0.25
        s2 = b5.get_pygsflow_builder_object(rd.copy(), sd.copy(), ib, apply_defaults=False)
        require(same_value(np.asarray(s2.reach_data), np.asarray(rd)) and
                same_value(np.asarray(s2.segment_data), np.asarray(sd)) and
                same_value(s2.irunbnd, ib),
                "the stream object does not hold the data it was given")
        # tables that are given receive the defaults, but are not changed themselves
        given = [rd, sd, ib]
        if len(up) % 3 != 0:
            given[len(up) % 3] = None
        before = [x if x is None else x.copy() for x in given]
        s3 = b5.get_pygsflow_builder_object(*given, **grouping(group, how))
        require(all(same_value(np.asarray(x), np.asarray(y)) for x, y in zip(given, before)),
                "applying the defaults changed the tables it was given")
        require(same_value(np.asarray(s3.reach_data), np.asarray(s.reach_data)) and
                same_value(np.asarray(s3.segment_data), np.asarray(s.segment_data)) and
                same_value(s3.irunbnd, s.irunbnd if given[2] is None else ib),
                "the stream object made from given tables differs from the one made without")
        s4 = b5.get_pygsflow_builder_object(apply_defaults=False, **grouping(group, how))
        require(same_value(np.asarray(s4.reach_data), np.asarray(b5.reach_data())) and
                same_value(np.asarray(s4.segment_data), np.asarray(b5.segment_data())),
                "without the defaults the stream object differs from the tables")
        objs += [s, s2, s3]
    tmp = tempfile.mkdtemp(prefix="dany-c24-")
    try:
        f = os.path.join(tmp, "o.bin")
        f = pathlib.Path(f) if pathlike else f
        for x in objs:
            before = {k: (v.copy() if isinstance(v, np.ndarray) else v)
                      for k, v in vars(x).items()}
            ctx.op(2)
            x.write(f)
            y = (PygsflowCompatBase if pathlike else type(x)).read(f)
            require(type(y) is type(x), "read a %s, wrote a %s", type(y), type(x))
            require(set(vars(y)) == set(before), "fields %s, wrote %s", sorted(vars(y)),
                    sorted(before))
            for k, v in before.items():
                require(same_value(v, vars(y)[k]), "%s read back as %s, wrote %s", k,
                        vars(y)[k], v)
                require(same_value(v, vars(x)[k]), "writing changed %s", k)
    finally:
        shutil.rmtree(tmp)
    return len(up), sorted((int(k), int(v)) for k, v in conn.items())


CONTENTS = (None, 0, -1.5, "text", True, [1, 2.5, None], {1: 2, 3: 0}, (), b"raw",
            float("inf"), np.float32(0.1), np.int64(2 ** 40))


def content(i):
    """values of every kind that a container may hold"""
    if i < len(CONTENTS):
        return CONTENTS[i]
    return (np.zeros(0), np.zeros((0, 3), dtype=int), np.array(3.25), np.arange(6.).reshape(2, 3).T,
            np.asfortranarray(np.arange(6).reshape(2, 3)), np.array([1, np.nan, -np.inf]),
            np.arange(4, dtype=np.int8), np.array([True, False]), np.arange(3, dtype="f2"),
            np.array(["a", "bc"]), np.arange(10)[::3], np.zeros(2, dtype=[("a", int), ("b", "f4")]),
            np.array([1e-310, 5e-324, 1 / 3]), np.arange(70000))[i - len(CONTENTS)]


def run_c24_held(ctx, case):
    """any contents, and attributes added by the user, come back as written"""
    import pathlib

    kind, i, j, k, name = case
    if kind == "s":
        x = PygsflowStreams(content(i), content(j), content(k))
    else:
        x = PygsflowCascades(np.arange(3), content(i), content(j), content(k), None,
                             np.ones(3), np.zeros(3, dtype=int), 1, 4, 5)
    if k % 3 == 0:
        x.note = content(j)
    tmp = tempfile.mkdtemp(prefix="dany-c24-")
    try:
        f = os.path.join(tmp, name)
        ctx.op(4)
        # a longer file exists already
        PygsflowStreams(np.arange(500), None, None).write(f)
        before = dict(vars(x))
        x.write(pathlib.Path(f) if j % 2 else f)
        require(os.listdir(tmp) == [name], "writes %s, named %s", os.listdir(tmp), name)
        y = type(x).read(f if j % 2 else pathlib.Path(f))
        require(type(y) is type(x), "read a %s, wrote a %s", type(y), type(x))
        require(set(vars(y)) == set(before), "fields %s, wrote %s", sorted(vars(y)),
                sorted(before))
        for n, v in before.items():
            require(vars(x)[n] is v, "writing replaced %s", n)
            require(same_value(v, vars(y)[n]), "%s read back as %r, wrote %r", n, vars(y)[n], v)
    finally:
        shutil.rmtree(tmp)
    return kind, i


def c24(tier):
    deep = tier == "thorough"

    def wrap(g):
        def it():
            for i, (case, how, terms, grp, many, pl) in enumerate(gen.cycle_with(
                    g(), ARRAYS, TERMS, GROUPS, (False, True), (True, False, False))):
                bs = cascade_bounds(mesh(case[0]).n)
                yield case + [how, terms, grp, many, bs[i % len(bs)], pl,
                              BOUNDS[i % len(BOUNDS)]]
        return it

    def s23():
        yield from fam_masks("s2x3w", (0, 1, 2), 1 if deep else 4)

    def s33():
        yield from fam_binary("s3x3", (0, 4), 1 if deep else 2)
        yield from fam_sparse("v3x3", (0, 4), 1 if deep else 2)

    def zoo():
        for name in ("quad:u", "hex:v", "tri:u"):
            yield from fam_sparse(name, range(0, mesh(name).n, 1 if deep else 3))

    def held():
        n = len(CONTENTS) + 14
        names = ("o.bin", "o", "my file.v1.2.pkl", ".hidden", "\u00fc.dat")
        for kind in "sc":
            for i, j in itertools.product(range(n), repeat=2):
                yield [kind, i, j, (3 * i + 5 * j) % n, names[(i + j) % 5]]

    return [Space("held", held, run_c24_held, "containers with values of every type"),
            Space("2x3", wrap(s23), run_c24, "2x3 DEMs x stream masks x options"),
            Space("3x3", wrap(s33), run_c24, "3x3 grids"),
            Space("meshes", wrap(zoo), run_c24, "irregular meshes"),
            Space("variants", wrap(lambda: fam_variants(4)), run_c24,
                  "closed rings, several layers"),
            Space("large", wrap(lambda: fam_large(range(1 if not deep else 10))), run_c24,
                  "fixed terrains of several hundred cells", chunk=2)]
