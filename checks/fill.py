"""DEM conditioning: C01 - C04"""
import itertools

import numpy as np

from mc import gen, model
from mc.core import Space, require
from mc.grids import mesh

from checks.flow import big
from dany import fill_nan_values, fill_sinks



def tolerance(z):
    """rounding of a few dozen additions at the elevation of z"""
    return 1e-9 + 1e-14 * max(abs(v) for v in z)


ZOO = ["tri:v", "quad:v", "hex:u", "ring:v", "bow:u", "ell:v", "strip:u", "hang:v", "isle:v"]
VARIANTS = ["quad:vc", "hang:uc", "hex:vl", "s3x3l", "v3x3l", "tri:uc", "hang:vf", "strip:uf",
            "quad:vm", "s3x3k", "quad:vk", "tri:uk", "quad:vp", "tri:up"]
LARGE = ("s24x26", "trib:v", "v18x25w", "hexb:u", "s16x40r", "u20x20", "trib:uc", "s3x150")


def large_dems(ks, kinds=("raw", "steps", "plane")):
    """fixed DEMs of several hundred cells with many nested depressions"""
    for name in LARGE:
        n = mesh(name).n
        for k in ks:
            for i, kind in enumerate(kinds):
                yield name, ["terrain", name, k, (0, n // 2 + 3, n - 1)[(k + i) % 3], kind]


def levels(z):
    if z and z[0] == "terrain":
        t = gen.terrain(mesh(z[1]), *z[2:])
        # turn drained terrains upside down: their outlet becomes a summit
        top = max(t)
        z = t if z[4] == "raw" else [top - v - 3000.0 * (z[2] % 2) for v in t]
    return [float(v) for v in z]


def _out(ctx, mname, dem, **kw):
    ctx.op()
    m = mesh(mname)
    g = m.grid()
    former = None
    if m.n < 100 and gen.key(mname, np.ravel(dem).tolist(), sorted(kw)) % 4 == 0:
        # another DEM was filled on this grid before
        ctx.op()
        former = fill_sinks(g, m.arr(np.ravel(dem)[::-1].copy()), method="complete")
        was = former.copy()
    out = fill_sinks(g, dem, **kw)
    require(former is None or np.array_equal(former, was),
            "the result of an earlier fill_sinks changed")
    return out


# ------------------------------------------------------------------------- C01
def check_surface(m, z, f, eps, kind, W0=None):
    """f is a valid sink fill of z; kind: priority | complete | drain"""
    src = set(m.boundary)
    TOL = tolerance(z)
    for c in m.boundary:
        require(f[c] == z[c], "%s: boundary cell %s changed from %s to %s",
                kind, c, z[c], f[c])
    for c in range(m.n):
        require(f[c] >= z[c], "%s: cell %s lowered from %s to %s", kind, c, z[c], f[c])
    W0 = W0 or model.minimax(m.adj, m.boundary, z)
    if kind == "complete" or eps == 0:
        require(f == W0, "%s: filled %s, lowest spill surface %s", kind, f, W0)
        return
    for c in range(m.n):
        if c in src:
            continue
        require(any(f[n] < f[c] for n in m.adj[c]),
                "%s: interior cell %s (%s) has no lower neighbor", kind, c, f[c])
        require(f[c] >= W0[c], "%s: cell %s at %s is below its spill level %s",
                kind, c, f[c], W0[c])
        require(f[c] <= W0[c] + eps * m.n + TOL,
                "%s: cell %s at %s is more than n*eps over its spill level %s",
                kind, c, f[c], W0[c])
        if f[c] != z[c]:
            require(any(abs(f[c] - f[n] - eps) <= TOL for n in m.adj[c]),
                    "%s: cell %s raised to %s, not eps over a neighbor", kind, c, f[c])
    if kind == "drain":
        W = model.eps_surface(m.adj, m.boundary, z, eps)
        for c in range(m.n):
            require(abs(f[c] - W[c]) <= TOL,
                    "drain: cell %s is %s, lowest draining surface %s", c, f[c], W[c])


def run_c01(ctx, case):
    mname, z, eps = case
    m = mesh(mname)
    z = levels(z)
    W0 = model.minimax(m.adj, m.boundary, z)
    res = []
    for kind, spelled in (("priority", "priority"), ("complete", "Complete"),
                          ("drain", "drain")):
        kw = {} if (kind == "priority" and eps == 2e-6) else dict(eps=eps, method=spelled)
        f = _out(ctx, mname, m.arr(z), **kw)
        require(f.shape == m.shape, "%s: shape %s", kind, f.shape)
        f = [float(v) for v in f.ravel()]
        check_surface(m, z, f, eps, kind, W0)
        res.append(f)
    if res[1] == z and eps == 2e-6 and res[0] == z:
        return None  # nothing to fill
    return res


def c01(tier):
    deep = tier == "thorough"

    def framed44():
        m = mesh("s4x4")
        outs = [(o, lv) for o in m.boundary for lv in (0, 1, 2)]
        for z in gen.framed(m, 3, outs, (0, 1, 2, 3)):
            yield ["s4x4", z, 2e-6]

    def framed55():
        m = mesh("s5x5")
        outs = [(o, lv) for o in (0, 2, 9, 13) for lv in (0, 1)] if not deep else \
            [(o, lv) for o in (0, 1, 2, 9, 24) for lv in (0, 1)]
        inner = (0, 2) if not deep else (0, 2, 3)
        for z in gen.framed(m, 4, outs, inner):
            yield ["s5x5", z, 2e-6]

    def binary34():
        for z, eps in gen.cycle_with(gen.dems(12, (0, 1)), (2e-6, 0.25, 0.0)):
            yield ["s3x4", z, eps]
        if deep:
            for z in gen.dems(12, (0, 1, 2)):
                yield ["s3x4", z, 2e-6]

    def eps_grid():
        m = mesh("v4x4")
        outs = [(o, lv) for o in (0, 1, 7) for lv in (-3.5, 0)]
        for z in gen.framed(m, 2.0, outs, (-7.25, -3.5, 0, 2.0)):
            for eps in (0.25, 1e-3, 0.0):
                yield ["v4x4", z, eps]

    def zoo():
        for name in ZOO:
            n = mesh(name).n
            alpha = (0, 1, 2, 3) if deep and n <= 8 else (0, 1, 2)
            for z, eps in gen.cycle_with(gen.dems(n, alpha), (2e-6, 0.25)):
                yield [name, z, eps]
        for name in ("quad3:v", "tri3:u"):
            for z in gen.dems(12, (0, 1)):
                yield [name, z, 2e-6]
            if deep:
                for z in gen.every(gen.dems(12, (0, 1, 2)), 3):
                    yield [name, z, 2e-6]

    def high():
        # large elevations and several outlets of different level
        m = mesh("s3x6o")
        for o1, o2 in itertools.combinations(m.boundary, 2):
            for v in itertools.product((3000.0, 3001.5, 2999.25), repeat=4):
                z = [3002.0] * m.n
                z[o1], z[o2] = 3000.5, 2999.0
                for c, x in zip((7, 8, 9, 10), v):
                    z[c] = x
                yield ["s3x6o", z, 2e-6]

    def relief():
        # steps that single precision can not represent
        m = mesh("u4x4")
        for z in gen.framed(m, 2.0 ** 24 + 4, [(o, 2.0 ** 24 - 1) for o in (1, 4, 15)],
                            (2.0 ** 24, 2.0 ** 24 + 1, 2.0 ** 24 + 3)):
            yield ["u4x4", z, 1e-3]

    def fine():
        # levels that differ by a part of a millimeter, and far less
        m = mesh("s4x4")
        for d in (2.0 ** -12, 2.0 ** -20, 2.0 ** -30):
            outs = [(o, 12.5 + k * d) for o in (0, 1, 7, 15) for k in (0, 2)]
            for z in gen.framed(m, 12.5 + 3 * d, outs, (12.5 - d, 12.5, 12.5 + 4 * d)):
                for eps in (0.0, d / 64):
                    yield ["s4x4", z, eps]

    def large():
        for (name, z), eps in gen.cycle_with(large_dems(range(2 if not deep else 20)),
                                             (2e-6, 0.25, 1e-3)):
            yield [name, z, eps]

    def variants():
        for name in VARIANTS:
            m = mesh(name)
            seq = gen.dems(m.n, (0, 1, 2)) if m.n < 9 else gen.dems(m.n, (0, 1))
            for z, eps in gen.cycle_with(gen.relief(seq), (2e-6, 0.25)):
                yield [name, z, eps]

    def canyon():
        # a valley that drains to one end, level or nearly so, with a pit
        for name, n, along in (("s3x300", 300, True), ("u300x3", 300, False), ("s3x300w", 300, True)):
            for end in (0, n - 1):
                for step in (0.0, 1e-5):
                    z = [[50.0] * n, [10.0 + step * abs(i - end) for i in range(n)], [51.0] * n]
                    z[1][n // 3] = 3.0
                    z[1][n - 1 - end] = 50.0
                    z[1][end] = 0.0
                    if not along:
                        z = [list(r) for r in zip(*z)]
                    yield [name, [v for r in z for v in r], (2e-6, 1e-3)[end > 0]]

    return [
        Space("canyon", canyon, run_c01, "a valley of 300 cells towards either end", chunk=1),
        Space("large", large, run_c01, "fixed DEMs of several hundred cells"),
        Space("variants", variants, run_c01, "closed rings, several layers"),
        Space("framed4x4", framed44, run_c01,
              "4x4, rim with one outlet (12 positions x 3 levels), all interiors over 4 levels"),
        Space("framed5x5", framed55, run_c01, "5x5, rim with one outlet, 9 interior cells"),
        Space("3x4", binary34, run_c01, "3x4, every two level DEM x eps 2e-6/0.25/0"),
        Space("eps", eps_grid, run_c01, "4x4 vertex grid, negative levels, three eps values"),
        Space("meshes", zoo, run_c01, "triangles, refined quads, hexagons, holes, point contacts"),
        Space("high", high, run_c01, "3x6, two outlets in every position, elevations near 3000"),
        Space("fine", fine, run_c01, "levels that differ by 2**-12, 2**-20 and 2**-30"),
        Space("relief", relief, run_c01, "steps of 1 near 2**24 on an unstructured grid"),
    ]


# ------------------------------------------------------------------------- C02
def stream_repair(m, z, seeds, eps):
    """stream cells below all of their (two or more) stream neighbors are
    raised eps over the lowest of them, lowest stream cell first"""
    f = list(z)
    for c in sorted(seeds, key=lambda c: (z[c], c)):
        e = [f[n] for n in m.adj[c] if n in seeds]
        if len(e) > 1 and min(e) > f[c]:
            f[c] = min(e) + eps
    return f


def run_c02(ctx, case):
    mname, z, mask, kind, method, eps = case
    m = mesh(mname)
    z = levels(z)
    if mask and mask[0] == "every":
        mask = list(range(*mask[1:]))
    seeds = set(mask)
    marr = np.zeros(m.n, dtype={"bool": bool, "float": float, "nan": float}.get(kind, int))
    if kind in ("nan", "nodata"):
        # no streams where the mask has no data
        marr[:] = np.nan if kind == "nan" else -9999
    for k, c in enumerate(mask):
        marr[c] = True if kind == "bool" else (1 + k if kind != "float" else
                                               (0.5, 1e-9, 300.25)[k % 3])
    marr = marr.reshape(m.shape)
    if kind == "fortran":
        marr = np.asfortranarray(marr)
    keep = marr.copy()
    f = _out(ctx, mname, m.arr(z), eps=eps, stream_mask=marr, method=method)
    require(f.shape == m.shape, "shape %s", f.shape)
    require(np.array_equal(marr, keep, equal_nan=kind == "nan"), "the stream mask was modified")
    f = [float(v) for v in f.ravel()]
    if method.lower() == "complete":
        eps = 0.0
    TOL = tolerance(z) if eps else 0.0
    want = stream_repair(m, z, seeds, eps)
    for c in seeds:
        require(abs(f[c] - want[c]) <= TOL,
                "stream cell %s: %s, expected %s", c, f[c], want[c])
    linked = model.reaches(m.adj, seeds)
    W = None
    if all(want[c] == z[c] for c in seeds):
        W = model.minimax(m.adj, sorted(seeds), z)
    low = model.minimax(m.adj, sorted(seeds), z)
    for c in range(m.n):
        require(f[c] >= z[c], "cell %s lowered from %s to %s", c, z[c], f[c])
        if c in seeds:
            continue
        if c not in linked:
            require(f[c] == z[c], "cell %s has no stream to drain to but changed", c)
            continue
        if eps > 0:
            require(any(f[n] < f[c] for n in m.adj[c]),
                    "cell %s (%s) has no lower neighbor and is not a stream", c, f[c])
        if f[c] != z[c]:
            require(any(abs(f[c] - f[n] - eps) <= TOL for n in m.adj[c]),
                    "cell %s raised to %s, not eps over a neighbor", c, f[c])
        require(f[c] >= low[c], "cell %s at %s can not spill to a stream (%s)",
                c, f[c], low[c])
        if W is not None:
            require(f[c] <= W[c] + eps * m.n + TOL,
                    "cell %s at %s is over its spill level %s", c, f[c], W[c])
    if eps == 0:
        # every cell has a path to a stream that never rises
        ok, stack = set(seeds), list(seeds)
        while stack:
            c = stack.pop()
            for n in m.adj[c]:
                if n not in ok and f[n] >= f[c]:
                    ok.add(n)
                    stack.append(n)
        require(ok >= linked, "cells %s do not drain to a stream", sorted(linked - ok))
    return f


def c02(tier):
    deep = tier == "thorough"
    kinds = ("bool", "int", "float", "fortran", "nan", "nodata")
    meths = ("priority", "complete", "drain", "Priority", "COMPLETE")
    epss = (2e-6, 0.25, 2e-6)

    def small():
        seq = ([z, s] for z in gen.dems(6, (0, 1, 2))
               for s in gen.subsets(6, range(1, 7)))
        for (z, s), k, me, e in gen.cycle_with(seq, kinds, meths, epss):
            yield ["s2x3", z, s, k, me, e]

    def nine():
        masks = [[4], [0], [0, 4, 8], [3, 4, 5], [1, 3, 5, 7], [0, 1, 3, 4], [2, 6],
                 [0, 1, 2, 5, 8], [1, 4, 7], [5, 7, 8]]
        seq = ([z, s] for z in gen.dems(9, (0, 1) if not deep else (0, 1, 2))
               for s in masks)
        for (z, s), k, me, e in gen.cycle_with(seq, kinds, meths, epss):
            yield ["v3x3", z, s, k, me, e]

    def line():
        seq = ([z, s] for z in gen.dems(5, (0, 1, 2, 3))
               for s in gen.subsets(5, (1, 2, 3, 5)))
        if not deep:
            seq = gen.every(seq, 3)
        for (z, s), k, me, e in gen.cycle_with(seq, kinds, meths, epss):
            yield ["u1x5", z, s, k, me, e]

    def fine():
        for d in (2.0 ** -12, 2.0 ** -20, 2.0 ** -30):
            seq = ([[12.5 + v * d for v in z], s] for z in gen.dems(6, (0, 1, 2))
                   for s in gen.subsets(6, (2, 3)))
            for (z, s), k, me in gen.cycle_with(gen.every(seq, 1 if deep else 3), kinds, meths):
                yield ["s2x3", z, s, k, me, d / 64]

    def zoo():
        for name in ("tri:v", "quad:u", "hex:v", "ring:u", "bow:v"):
            n = mesh(name).n
            seq = ([z, s] for z in gen.dems(n, (0, 1) if not deep else (0, 1, 2))
                   for s in gen.subsets(n, (1, 2, 3)))
            for (z, s), k, me, e in gen.cycle_with(seq, kinds, meths, epss):
                yield [name, z, s, k, me, e]

    def large():
        for i, (name, z) in enumerate(large_dems(range(2 if not deep else 20))):
            n = mesh(name).n
            for j, mask in enumerate((["every", 0, n, 13], ["every", n // 2, n // 2 + 1],
                                      ["every", 3, n, n // 3], ["every", 0, n, 2],
                                      ["every", n // 3, n // 3 + 40])):
                yield [name, z, mask, kinds[(i + j) % 6], meths[(i + j // 2) % 5],
                       epss[(i + j) % 3]]

    def variants():
        for name in VARIANTS:
            n = mesh(name).n
            seq = ([z, s] for z in gen.relief(gen.dems(n, (0, 1)))
                   for s in gen.subsets(n, (1, 2)))
            for (z, s), k, me, e in gen.cycle_with(seq, kinds, meths, epss):
                yield [name, z, s, k, me, e]

    return [
        Space("large", large, run_c02, "fixed DEMs of several hundred cells"),
        Space("variants", variants, run_c02, "closed rings, several layers"),
        Space("2x3", small, run_c02,
              "three level DEMs x the 63 stream masks (mask type, method and eps in rotation)"),
        Space("3x3", nine, run_c02, "3x3 vertex grid, ten stream layouts"),
        Space("fine", fine, run_c02, "levels that differ by 2**-12, 2**-20 and 2**-30"),
        Space("1x5", line, run_c02, "1x5 unstructured grid, four levels"),
        Space("meshes", zoo, run_c02, "irregular meshes, all masks of one or two cells"),
    ]


# ------------------------------------------------------------------------- C03
PRESENT = ["int64", "int32", "int16", "float32", "fortran", "flat", "view", "readonly"]


def present(m, z, how):
    a = m.arr(z)
    if how in ("int64", "int32", "int16", "float32"):
        return a.astype(how)
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "flat":
        return a.ravel().copy()
    if how == "view":
        big = np.full((2,) + a.shape, -99.0)
        big[1] = a
        v = big[::-1][0]
        if a.ndim == 2:
            wide = np.full((a.shape[0], a.shape[1] * 2), -99.0)
            wide[:, ::2] = a
            v = wide[:, ::2]
        return v
    if how == "readonly":
        a.setflags(write=False)
        return a
    raise ValueError(how)


def run_c03(ctx, case):
    mname, z, how, method, mask = case
    m = mesh(mname)
    if z[0] == "terrain":
        # whole numbers fit every array type
        z = [float(int(v)) for v in levels(z)]
    kw = dict(method=method)
    if mask is not None:
        s = np.zeros(m.n, dtype=int)
        s[mask] = 1
        kw["stream_mask"] = s.reshape(m.shape)
    base = _out(ctx, mname, m.arr(z), **kw)
    d = present(m, z, how)
    keep = d.copy()
    g = mesh(mname).grid()
    ctx.op()
    got = fill_sinks(g, d, **kw)
    require(np.array_equal(d, keep) and d.dtype == keep.dtype, "the input DEM was modified")
    require(got.shape == d.shape, "shape %s of a %s DEM", got.shape, d.shape)
    require(np.array_equal(np.ravel(got), np.ravel(base)),
            "%s DEM: %s, float64 DEM: %s", how, np.ravel(got).tolist(),
            np.ravel(base).tolist())
    require(not np.shares_memory(got, d), "the result shares memory with the input")
    # the same grid object again, after other neighbors were asked of it
    g.neighbors(method="rook", reset=True)
    ctx.op(2)
    again = fill_sinks(g, d, **kw)
    require(np.array_equal(again, got), "second run on the same grid: %s, first %s",
            again.ravel().tolist(), got.ravel().tolist())
    if mask is None:
        twice = fill_sinks(g, got, **kw)
        require(np.array_equal(twice, got), "filled again: %s, filled once: %s",
                twice.ravel().tolist(), got.ravel().tolist())
    return got.tolist() if not np.array_equal(np.ravel(got), np.ravel(d)) else None


def run_c03_drained(ctx, case):
    """a DEM in which every interior cell has a lower neighbor stays as it is"""
    mname, z, eps, method = case
    m = mesh(mname)
    z = levels(z)
    edge = set(m.boundary)
    if any(c not in edge and all(z[n] >= z[c] for n in m.adj[c]) for c in range(m.n)):
        return None
    f = _out(ctx, mname, m.arr(z), eps=eps, method=method)
    require(np.ravel(f).tolist() == z, "a DEM without depressions was changed from %s to %s "
            "(eps %s)", z, np.ravel(f).tolist(), eps)
    return z


def c03(tier):
    deep = tier == "thorough"
    meths = ("priority", "complete", "drain")

    def drained():
        both = ("priority", "Complete", "priority")
        # eps below, between and above the differences of the levels
        epss = (2e-6, 0.4, 1.5, 50.0)
        for name in ("s3x4", "v3x4w", "u4x3r"):
            m = mesh(name)
            inside = [c for c in range(m.n) if c not in m.boundary]
            seq = ([z[inside.index(c)] if c in inside else b[m.boundary.index(c)]
                    for c in range(m.n)]
                   for z in gen.dems(len(inside), (1, 2, 3, 4))
                   for b in gen.dems(len(m.boundary), (0, 2.5)))
            for z, eps, me in gen.cycle_with(gen.every(seq, 1 if deep else 2), epss, both):
                yield [name, z, eps, me]
        m = mesh("s4x5")
        seq = gen.framed(m, 5, [(o, 0) for o in (0, 1, 9, 17)], (1, 2, 3))
        for z, eps, me in gen.cycle_with(gen.every(seq, 1), epss, both):
            yield ["s4x5", z, eps, me]
        for d in (2.0 ** -12, 2.0 ** -20, 2.0 ** -30):
            seq = gen.framed(mesh("v4x4"), 12.5 + 5 * d, [(o, 12.5) for o in (0, 1, 7, 14)],
                             [12.5 + k * d for k in (1, 2, 3, 4)])
            for z, eps, me in gen.cycle_with(seq, (2e-6, d / 2, 0.0), both):
                yield ["v4x4", z, eps, me]
        for i, (name, z) in enumerate(big(range(2 if not deep else 20), ("rough", "plane"))):
            yield [name, z, (0.01, 0.5, 2e-6)[i % 3], both[i % 2]]

    def framed():
        m = mesh("s4x4")
        outs = [(o, lv) for o in (0, 1, 7, 15) for lv in (0, 1)]
        seq = gen.framed(m, 3, outs, (0, 1, 3))
        for z in seq:
            for how in PRESENT:
                for me in meths:
                    yield ["s4x4", z, how, me, None]

    def masked():
        for z in gen.dems(6, (0, 1, 2)):
            for s, how, me in zip(([0], [4], [1, 2, 3], [0, 1, 2, 5]),
                                  PRESENT[1::2], ("priority", "complete", "priority", "drain")):
                yield ["s2x3", z, how, me, s]

    def zoo():
        for name in ("quad3:v", "quad3:u"):
            seq = gen.dems(12, (0, 1))
            for z, how, me in gen.cycle_with(seq, PRESENT, meths):
                yield [name, z, how, me, None]
        for name in ("hex:v", "tri:u", "ring:v"):
            seq = gen.dems(mesh(name).n, (0, 1))
            for z, how, me in gen.cycle_with(seq, PRESENT, meths):
                yield [name, z, how, me, None]

    def large():
        for (name, z), how, me in gen.cycle_with(
                large_dems(range(2 if not deep else 20)), PRESENT, meths):
            yield [name, z, how, me, None]
            yield [name, z, how, me, [5, 6, 40, 100]]

    return [
        Space("large", large, run_c03, "fixed DEMs of several hundred cells"),
        Space("drained", drained, run_c03_drained, "DEMs without depressions, eps below and "
              "above their steps"),
        Space("4x4", framed, run_c03, "framed 4x4 DEMs x presentations x methods"),
        Space("masked", masked, run_c03, "2x3 DEMs with stream masks x presentations"),
        Space("meshes", zoo, run_c03, "irregular meshes, presentations and methods in rotation"),
    ]


# ------------------------------------------------------------------------- C04
FLAT = (False, True, "fortran", "view", "readonly", "float32", False)


def run_c04(ctx, case):
    mname, z, nans, method, flat = case
    m = mesh(mname)
    z = levels(z)
    zz = list(z)
    if nans and nans[0] == "every":
        nans = [c for c in range(*nans[1:3]) if (c % nans[3] < nans[4])]
    for c in nans:
        zz[c] = float("nan")
    a = np.array(zz) if flat is True else m.arr(zz)
    if flat and flat is not True:
        a = present(m, zz, flat)
    keep = a.copy()
    ctx.op()
    kw = {} if method == "default" else dict(method=method)
    g = m.grid()
    former = None
    if m.n < 100 and gen.key(case) % 4 == 0:
        # another DEM was filled on this grid before
        ctx.op()
        former = fill_nan_values(g, m.arr(zz[::-1]), method="max")
        was = former.copy()
    f = fill_nan_values(g, a, **kw)
    require(former is None or np.array_equal(former, was, equal_nan=True),
            "the result of an earlier fill_nan_values changed")
    require(f.shape == a.shape, "shape %s", f.shape)
    require(np.array_equal(a, keep, equal_nan=True), "the input DEM was modified")
    require(not np.shares_memory(f, a), "the result shares memory with the input")
    f = [float(v) for v in f.ravel()]
    how = "mean" if method == "default" else method.lower()
    TOL = tolerance(z) if flat != "float32" else 1e-5 * (1 + max(abs(v) for v in z))
    valid = [c for c in range(m.n) if c not in nans]
    for c in valid:
        require(f[c] == zz[c], "valid cell %s changed from %s to %s", c, zz[c], f[c])
    linked = model.reaches(m.adj, valid)
    nans = list(nans)
    for c in nans:
        require((f[c] == f[c]) == (c in linked),
                "nan cell %s is %s, connected to a valid cell: %s", c, f[c], c in linked)
        if c in linked:
            nb = [f[n] for n in m.adj[c] if f[n] == f[n]]
            require(min(nb) - TOL <= f[c] <= max(nb) + TOL,
                    "cell %s filled with %s, neighbors %s", c, f[c], nb)
    if len(nans) <= 4:
        ends = model.nan_fill_outcomes(m.adj, zz, how)
        require(any(all((f[c] != f[c]) if e[c] is None else abs(f[c] - e[c]) <= TOL
                        for c in range(m.n)) for e in ends),
                "%s fill gives %s, possible: %s", how, f, ends[:4])
    return f if nans else None


def c04(tier):
    deep = tier == "thorough"
    meths = ("mean", "median", "min", "max", "default", "Median", "MAX")
    tables = ([5, 1, 4, 2, 8, 3, 9, 7, 6, 11, 10, 12],
              [2, 2, 7, 7, 2, 0, 0, 7, 2, 0, 7, 2],
              [-3, 10, -1, 0, 4, 100, -50, 2, 2, 8, 1, 0])

    def fam(name, sizes, tabs=tables):
        n = mesh(name).n
        for si, s in enumerate(gen.subsets(n, sizes)):
            for ti, t in enumerate(tabs):
                for mi, me in enumerate(meths[:4]):
                    yield [name, t[:n], s, me, FLAT[(si + ti + mi) % len(FLAT)]]
                yield [name, t[:n], s, meths[4 + ti % 3], FLAT[(si + ti) % len(FLAT)]]

    def small():
        yield from fam("s2x3", range(0, 7))

    def nine():
        yield from fam("v3x3", range(1, 10), tables if deep else tables[:2])

    def line():
        yield from fam("u1x6", range(1, 7))

    def zoo():
        for name in ("tri:v", "quad:u", "hex:v", "ring:u", "bow:v", "ell:v"):
            yield from fam(name, range(1, mesh(name).n + 1),
                           tables if deep else tables[2:])

    def two():
        # two separate halves: one may be all nan
        yield from fam("gap:v", range(1, 7))
        yield from fam("isle:v", range(1, 7))

    def large():
        for i, (name, z) in enumerate(large_dems(range(2 if not deep else 20))):
            n = mesh(name).n
            # scattered, half of the cells, a block, everything but one cell
            for j, s in enumerate((["every", 0, n, 3, 1], ["every", 0, n, 2, 1],
                                   ["every", n // 4, n, n, n - 5], ["every", 1, n, n, n],
                                   ["every", 0, n, 5, 4])):
                yield [name, z, s, meths[(i + j) % 7], j % 2 == 0]

    def variants():
        for name in VARIANTS:
            yield from fam(name, (1, 2, 4, 6), tables[2:])

    return [
        Space("large", large, run_c04, "fixed DEMs of several hundred cells"),
        Space("variants", variants, run_c04, "closed rings, several layers"),
        Space("2x3", small, run_c04, "all 64 nan patterns x three elevation tables x methods"),
        Space("3x3", nine, run_c04, "all 511 nan patterns of a 3x3 vertex grid"),
        Space("1x6", line, run_c04, "all nan patterns of a 1x6 unstructured grid"),
        Space("meshes", zoo, run_c04, "all nan patterns of irregular meshes"),
        Space("islands", two, run_c04, "two separate islands of cells"),
    ]
