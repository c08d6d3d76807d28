"""flow directions, accumulation, watersheds, terrain: C05 - C12, C25"""
import itertools
import math

import numpy as np

from mc import core, gen, model
from mc.core import Space, require
from mc.grids import mesh

from dany import FlowDirections, fill_sinks

NAN = float("nan")
ZOO = ["tri:v", "quad:u", "hex:v", "ring:u", "bow:v", "ell:u", "strip:v", "hang:v", "isle:u"]
# the same cells written differently: closed rings, several layers, map coordinates
VARIANTS = ["quad:vc", "hang:uc", "hex:vl", "s2x3l", "v2x3l", "tri:vlc", "hang:vf", "strip:uf",
            "s3x3k", "quad:vk", "tri:uk", "s2x3m", "v2x3mr", "quad:um", "hex:vm",
            "s2x3dw", "quad:vd", "hex:ud", "s2x3e", "quad:ue", "quad:vp", "tri:up", "s2x3n"]
BIG = ("s30x30", "trib:v", "v18x25w", "hexb:u", "s20x32r", "u24x24", "trib:u", "s8x90w",
       "hub:v", "hub:uc")


def big(ks, kinds=("rough", "plane", "steps"), names=BIG):
    """fixed terrains of a few hundred cells, drained to one outlet"""
    for name in names:
        n = mesh(name).n
        for k in ks:
            for i, kind in enumerate(kinds):
                o = (0, n // 2 + 3, n - 1, n // 3)[(k + i) % 4]
                if name.startswith("hub") and kind == "plane":
                    # twenty cells flow to one
                    o, kind = 20, "cone"
                yield name, ["terrain", name, k, o, kind]


HUGE = (("s1x66100", "plane", 66099), ("s250x270w", "rough", 67000))


def huge_dems(names=HUGE):
    """more cells than a 16 bit number counts"""
    for name, kind, o in names:
        yield name, ["terrain", name, 3, o, kind]


def floats(z):
    if z and z[0] == "terrain":
        z = gen.terrain(mesh(z[1]), *z[2:])
    return [NAN if v is None else float(v) for v in z]


def build(ctx, m, z, check=True, grid=None, dtype=float):
    ctx.op()
    a = m.arr(z) if dtype is float else m.arr(z).astype(dtype)
    return FlowDirections(grid or m.grid(), a, check_elevations=check)


def past(ctx, fa, m, k):
    """other questions that the object answered before, for two cases in five:
    other thresholds and terminal cells must not show in what comes next"""
    k %= 5
    if k > 1 or m.n > 2000:
        return
    ctx.op(9)
    if k == 0:
        fa.flow_directions(burn_threshold=1.5)
    else:
        fa.flow_directions(terminal_cells=[m.n // 2, m.n - 1])
    fa.flow_accumulation(as_cells=True)
    fa.flow_accumulation()
    fa.get_nidp()
    fa.get_watershed_boundary(inside_point(m, m.n // 2))
    fa.get_subbasins([inside_point(m, c) for c in {m.n - 1, m.n // 3}])
    fa.slope, fa.aspect, fa.hru_len, fa.area, fa.vectors


def directions(ctx, fa, m, **kw):
    past(ctx, fa, m, gen.key(m.name, np.ravel(fa.dem).tolist(), sorted(kw)))
    ctx.op()
    f = fa.flow_directions(**kw)
    require(np.shape(f) == m.shape, "flow directions have shape %s", np.shape(f))
    require(np.issubdtype(f.dtype, np.integer), "flow directions are %s", f.dtype)
    return [int(v) for v in np.ravel(f)]


def hash_sum(z):
    """selects a fixed, well spread part of an enumeration"""
    return sum((i + 1) * (5 if v is None else v) for i, v in enumerate(z))


def minima(z):
    lo = min(v for v in z if v == v)
    return [c for c, v in enumerate(z) if v == lo]


def inside_point(m, c, how=0):
    """a point strictly inside cell c"""
    x, y = m.xc[c], m.yc[c]
    if how:
        vx, vy = m.verts[m.cells[c][how % len(m.cells[c])]]
        # 3 and over: just inside of a corner
        w = 0.001 if how >= 3 else 0.4
        x, y = w * x + (1 - w) * vx, w * y + (1 - w) * vy
    return x, y


def as_point(p, form):
    if form == "list":
        return [p[0], p[1]]
    if form == "array":
        return np.array(p)
    if form == "shapely":
        import shapely
        return shapely.geometry.Point(*p)
    if form == "flopy":
        from flopy.utils.geometry import Point
        return Point(*p)
    return (p[0], p[1])


# ------------------------------------------------------------------------- C05
def check_directions(m, z, f, thr, sinks):
    kinds = set()
    ends = [model.path(f, c)[1] for c in range(m.n)]
    for c in range(m.n):
        if z[c] != z[c]:
            require(f[c] == c, "nan cell %s flows to %s", c, f[c])
            kinds.add("nan")
            continue
        if c in sinks:
            require(f[c] == c, "terminal cell %s flows to %s", c, f[c])
            continue
        lo, best = model.steepest(m, z, c, thr)
        if lo is None:
            require(f[c] == -2, "cell %s has no valid neighbor but flows to %s", c, f[c])
            kinds.add("enclosed")
            continue
        require(f[c] == -2 or f[c] in m.adj[c], "cell %s flows to %s, not a neighbor",
                c, f[c])
        if lo < 0 and f[c] == -2 or lo == 0 and ends[c] != "sink":
            # only left open when no equally good neighbor drains
            ways = [n for n in best if ends[n] == "sink"]
            require(not ways, "cell %s does not drain (flows to %s) but its equally "
                    "good neighbors %s do", c, f[c], ways)
            kinds.add("undrained")
        elif lo < 0:
            require(f[c] in best, "cell %s flows to %s, steepest descent is %s",
                    c, f[c], sorted(best))
            kinds.add("tie" if len(best) > 1 else "down")
        if lo >= 0:
            require(f[c] == -2 or f[c] in best,
                    "cell %s without descent flows to %s, expected one of %s",
                    c, f[c], sorted(best))
            kinds.add("flat" if lo == 0 else "pit")
    return kinds


def terminal_arg(m, terms, form):
    if form == "rc":
        return [tuple(divmod(t, m.ncol)) for t in terms]
    if form == "lists":
        return [list(divmod(t, m.ncol)) for t in terms]
    if form == "pairs":
        return tuple(tuple(divmod(t, m.ncol)) for t in terms)
    if form == "tuple":
        return tuple(terms)
    if form == "numpy":
        return [np.int64(t) for t in terms]
    return list(terms)


STORED = ("int64", "float32", "int16", "fortran", "view", "readonly", "flat", "uint8", ">f4",
          "uint16", ">i2")


def stored(m, z, how):
    """the same elevations in another array"""
    a = m.arr(z)
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "flat":
        return a.ravel()
    if how == "readonly":
        a.setflags(write=False)
        return a
    if how == "view":
        wide = np.full(a.shape[:-1] + (2 * a.shape[-1],), -99.0)
        wide[..., ::2] = a
        return wide[..., ::2]
    return a.astype(how)


def run_c05(ctx, case):
    mname, z, thr, terms, form = case[:5]
    m = mesh(mname)
    z = floats(z)
    lows = minima(z)
    if len(case) > 5:
        a = stored(m, z, case[5])
        keep = a.copy()
        ctx.op()
        fa = FlowDirections(m.grid(), a, check_elevations=len(lows) == 1)
        f = directions(ctx, fa, m)
        require(np.array_equal(a, keep) and a.dtype == keep.dtype,
                "the DEM array was modified")
        return f, sorted(check_directions(m, z, f, thr, set(lows)))
    fa = build(ctx, m, z, check=len(lows) == 1)
    kw = {}
    if thr != model.THR:
        kw["burn_threshold"] = thr
    if terms:
        kw["terminal_cells"] = terminal_arg(m, terms, form)
    f = directions(ctx, fa, m, **kw)
    kinds = check_directions(m, z, f, thr, set(lows) | set(terms))
    require(np.array_equal(fa.flow_direction_array, m.arr(f, int)),
            "flow_direction_array differs from the returned array")
    require(np.array_equal(fa.dem, m.arr(z), equal_nan=True), "the DEM was modified")
    return f, sorted(kinds)


def c05(tier):
    deep = tier == "thorough"
    T = model.THR

    def s33():
        for z in gen.dems(9, (0, 1, 2)):
            yield ["s3x3", z, T, [], ""]

    def s23():
        for z in gen.dems(6, (0, 1, 2, 3)):
            yield ["s2x3w", z, T, [], ""]
            if z[0] == 0:
                yield ["v2x3r", z, T, [], ""]

    def weights():
        # diagonal and unequal spacings against unequal drops
        for z in gen.dems(8, (1, 2.5) if not deep else (1, 2, 3.5)):
            for name in ("s3x3w", "s3x3r"):
                yield [name, z[:4] + [3] + z[4:], T, [], ""]

    def s44():
        outs = (0, 5) if not deep else (0, 1, 5)
        for z in gen.dems(15, (1, 2)):
            for o in outs:
                if not deep and hash_sum(z) % 3 != o % 3:
                    continue
                yield ["s4x4", z[:o] + [0] + z[o:], T, [], ""]

    def nans():
        for z in gen.dems(9, (0, 1, None)):
            if any(v is not None for v in z):
                yield ["v3x3", z, T, [], ""]
        for name in ("quad:v", "ring:u"):
            for z in gen.dems(mesh(name).n, (0, 1, None)):
                if any(v is not None for v in z):
                    yield [name, z, T, [], ""]

    def small_steps():
        # differences around the burn threshold
        for z in gen.dems(6, (0, 4e-7, 1, 1 + 4e-7, 1 + 2e-6)):
            if deep or z[0] < 1:
                yield ["s2x3", z, T, [], ""]
        for z in gen.dems(6, (0, 1, 1.5, 2)):
            yield ["u2x3", z, 0.75, [], ""]
            yield ["s1x6", z, 0.75, [], ""]
            yield ["s2x3", z, 0.0, [], ""]

    def terminals():
        for t in gen.subsets(6, (3, 4, 5, 6)):
            for z in gen.dems(6, (0, 1)):
                yield ["s2x3", z, T, t, ("rc", "node", "lists")[sum(z) % 3]]
        for z in gen.dems(6, (0, 1, 2)):
            for t in gen.subsets(6, (1, 2)):
                for name, form in (("s2x3", "rc"), ("s2x3", "node"), ("v2x3", "node"),
                                   ("s2x3o", "lists"), ("u2x3", "numpy"),
                                   ("s2x3l", "rc"), ("v2x3", "tuple"), ("s2x3", "tuple"),
                                   ("s2x3w", "pairs")):
                    k = ("rc", "node", "lists", "numpy", "tuple", "pairs").index(form) % 5
                    if form == "rc" or (sum(t) + sum(z)) % 5 == k:
                        yield [name, z, T, t, form]

    def zoo():
        for name in ZOO:
            for z in gen.dems(mesh(name).n, (0, 1, 2)):
                yield [name, z, T, [], ""]
        for name in ("quad3:v", "tri3:u"):
            for z in gen.dems(11, (1, 2)):
                yield [name, [0] + z, T, [], ""]
                yield [name, z[:5] + [0] + z[5:], T, [], ""]

    def line():
        for z in gen.dems(7, (0, 1, 2)):
            yield ["s1x7", z, T, [], ""]
            yield ["u7x1", z, T, [], ""]

    def variants():
        for name in VARIANTS:
            for z in gen.relief(gen.dems(mesh(name).n, (0, 1, 2))):
                yield [name, z, T, [], ""]

    def arrays():
        for z in gen.dems(6, (0, 1, 2)):
            for name, how in zip(("s2x3", "v2x3", "s3x2w", "u2x3", "s2x3", "s2x3", "s3x2", "s2x3w",
                                  "v2x3", "u2x3", "s3x2"), STORED):
                yield [name, [v - (how[0] != "u") for v in z], T, [], "", how]

    def offset():
        # unit steps at high, low and negative elevations; tiny and huge relief
        for z in gen.dems(6, (0, 1, 2, 3)):
            for a, b in ((4000.0, 1.0), (-4000.25, 1.0), (1e6, 0.5), (0.0, 1e-4), (0.0, 1e5),
                         (4000.0, 2.0 ** -13)):
                if deep or hash_sum(z) % 3 == 0:
                    yield ["s2x3", [a + b * v for v in z], T, [], ""]
        # slopes far below 1e-6: elevations step by a little on large cells
        for z in gen.dems(6, (0, 1, 2, 3)):
            if deep or hash_sum(z) % 3 == 0:
                yield ["s2x3e", [a + 2.0 ** -18 * v for v in z for a in (512.0,)], T, [], ""]
                yield ["v2x3e", [2.0 ** -19 * v for v in z], T, [], ""]

    def large():
        for name, z in big(range(4 if not deep else 40), ("rough", "plane", "steps", "nan", "raw")):
            yield [name, z, T, [], ""]
        # dozens of terminal cells
        for i, (name, z) in enumerate(big(range(1 if not deep else 10), ("rough", "steps"))):
            n = mesh(name).n
            yield [name, z, T, list(range(n - 1, 0, -(7, 20, 3)[i % 3])),
                   ("node", "numpy", "tuple", "rc")[i % 4 if name[0] == "s" else i % 3]]

    return [
        Space("large", large, run_c05, "fixed terrains of several hundred cells", chunk=2),
        Space("variants", variants, run_c05, "closed rings, several layers"),
        Space("arrays", arrays, run_c05, "DEM array types and memory layouts"),
        Space("offset", offset, run_c05, "elevation offsets and scales"),
        Space("3x3", s33, run_c05, "every three level 3x3 DEM"),
        Space("2x3", s23, run_c05, "every four level 2x3 DEM, uneven and rotated spacing"),
        Space("weights", weights, run_c05, "3x3 uneven and rotated, high center"),
        Space("4x4", s44, run_c05, "4x4 with one outlet, every two level DEM"),
        Space("nans", nans, run_c05, "every two level DEM with nan cells"),
        Space("threshold", small_steps, run_c05, "steps below, at and above the threshold"),
        Space("terminals", terminals, run_c05, "every set of one or two terminal cells"),
        Space("meshes", zoo, run_c05, "irregular meshes, three levels"),
        Space("lines", line, run_c05, "single row and single column grids"),
    ]


# ------------------------------------------------------------------------- C06
def run_c06(ctx, case):
    mname, z, thr, terms = case
    m = mesh(mname)
    z = floats(z)
    lows = minima(z)
    sinks = set(lows) | set(terms)
    valid = {c for c in range(m.n) if z[c] == z[c]}
    if model.drainable(m, z, sinks, thr) != valid:
        return None
    fa = build(ctx, m, z, check=len(lows) == 1)
    kw = dict(terminal_cells=list(terms)) if terms else {}
    f = directions(ctx, fa, m, burn_threshold=thr, **kw)
    flat = 0
    for c in sorted(valid):
        p, end = model.path(f, c)
        require(end == "sink" and p[-1] in sinks,
                "cell %s does not drain to an outlet: path %s ends as %s", c, p, end)
        for a, b in zip(p, p[1:]):
            require(z[b] - z[a] < thr or z[b] <= z[a],
                    "flow climbs from cell %s (%s) to cell %s (%s)", a, z[a], b, z[b])
            flat += z[a] == z[b]
    return f, flat


def run_c06_conditioned(ctx, case):
    """fill to one outlet, then route: every cell reaches the outlet"""
    mname, z, outlet, method = case
    m = mesh(mname)
    g = m.grid()
    mask = np.zeros(m.n, dtype=int)
    mask[outlet] = 1
    ctx.op()
    d = fill_sinks(g, m.arr(floats(z)), stream_mask=mask.reshape(m.shape), method=method)
    ctx.op()
    ties = (np.ravel(d) == np.min(d)).sum() > 1
    if ties:
        # a flat fill may leave cells level with the outlet
        require(method == "complete", "the outlet is not the lowest cell after filling")
        d.ravel()[outlet] -= 1.0
    fa = FlowDirections(g, d)
    f = directions(ctx, fa, m)
    for c in range(m.n):
        p, end = model.path(f, c)
        require(end == "sink" and p[-1] == outlet,
                "conditioned cell %s does not drain to the outlet: %s (%s)", c, p, end)
    ctx.op()
    acc = fa.flow_accumulation(as_cells=True).ravel()
    require(acc[outlet] == m.n, "the outlet accumulates %s of %s cells", acc[outlet], m.n)
    return f


def c06(tier):
    deep = tier == "thorough"
    T = model.THR

    def s33():
        for z in gen.dems(9, (0, 1, 2)):
            if z.count(0) == 1:
                yield ["s3x3", z, T, []]

    def s44():
        for o in (0, 1, 5):
            for z in gen.dems(15, (1, 2)):
                if deep or hash_sum(z) % 2 == o % 2:
                    yield ["s4x4", z[:o] + [0] + z[o:], T, []]

    def s35():
        # long plateaus with one or two way out cells
        for o in (0, 7, 2):
            for z in gen.dems(14, (1, 2)):
                if deep or sum(z) % 3 == 0:
                    yield ["v3x5", z[:o] + [0] + z[o:], T, []]

    def s55():
        # plateau carved by a single channel of lower cells
        m = mesh("s5x5")
        for lows in itertools.combinations(range(1, 25), 2 if not deep else 3):
            for o in (0, 12, 24):
                if o in lows:
                    continue
                z = [3] * 25
                for c in lows:
                    z[c] = 2
                z[o] = 0
                yield ["s5x5", z, T, []]

    def lines():
        for n in range(2, 9):
            for z in gen.dems(n, (0, 1, 2)):
                if z.count(0) == 1:
                    yield [f"s1x{n}", z, T, []]
        for n in (30, 300):
            for o in (0, n // 3, n - 1):
                z = [1.0] * n
                z[o] = 0
                yield [f"s1x{n}", z, T, []]
                yield [f"u{n}x1", [1 + abs(i - o) // 7 if i != o else 0
                                   for i in range(n)], T, []]

    def zoo():
        for name in ZOO:
            for z in gen.dems(mesh(name).n, (0, 1, 2)):
                if z.count(0) == 1:
                    yield [name, z, T, []]
        for name in ("quad3:v", "tri3:u"):
            for z in gen.dems(11, (1, 2)):
                for o in (0, 5, 11):
                    yield [name, z[:o] + [0] + z[o:], T, []]

    def nans():
        for z in gen.dems(8, (1, 2, None)):
            yield ["s3x3", [0] + z, T, []]
            if deep:
                yield ["v3x3", z[:4] + [0] + z[4:], T, []]

    def terms():
        for z in gen.dems(6, (0, 1, 2)):
            for t in gen.subsets(6, (1, 2)):
                yield ["s2x3", z, T, t]
        for z in gen.dems(8, (1, 2)):
            for t in gen.subsets(9, (1,)):
                yield ["v3x3", [1] + z, T, t]

    def thr():
        for z in gen.dems(6, (1, 1.3, 2, 2.6)):
            yield ["s2x3", z, 0.5, []]
            yield ["u1x6", z, 0.5, []]
        # rises of exactly the threshold are not flat
        for z in gen.dems(6, (1, 1.25, 1.5, 2)):
            yield ["s2x3", z, 0.5, []]
            yield ["u1x6", z, 0.25, []]
            if z[1] == 1:
                yield ["v3x2", z, 1.0, []]
        for z in gen.dems(7, (0, 1, 1.5)):
            yield ["hex:v", z, 0.5, []]
            yield ["hang:u", z, 1.0, []]

    def large():
        for name, z in big(range(5 if not deep else 50), ("rough", "plane", "steps", "nan")):
            yield [name, z, T, []]
        # flats of thousands of cells
        for name, o in (("s60x50", 0), ("v70x60w", 2031), ("u6x700", 4199), ("s1x4000", 1999),
                        ("hexb:v", 150)) + ((("s150x150", 70),) if deep else ()):
            yield [name, ["terrain", name, 0, o, "flat"], T, []]

    def variants():
        for name in VARIANTS:
            for z in gen.relief(gen.dems(mesh(name).n, (0, 1, 2), unique_min=True)):
                yield [name, z, T, []]

    def conditioned():
        for z in gen.dems(9, (0, 1, 2) if deep else (0, 1)):
            for o in (0, 4, 5):
                for me in ("priority", "complete"):
                    yield ["s3x3", z, o, me]
        for z in gen.dems(6, (0, 1, 5)):
            for o in range(6):
                yield ["v2x3", z, o, "priority"]
        for name in ("tri:v", "quad:u", "hex:v", "ring:u", "bow:v"):
            for z in gen.dems(mesh(name).n, (0, 3)):
                for o in (0, 3, 5):
                    yield [name, z, o, "priority" if o else "complete"]
        # filled flats on cells of kilometers: slopes below 1e-9
        for name in ("s3x3e", "v2x4e", "quad:ue", "s3x3m", "hex:vd"):
            for z in gen.dems(mesh(name).n, (0, 1)):
                for o in (0, 5):
                    yield [name, z, o, "priority"]
        for z in gen.framed(mesh("s5x5"), 4, [(0, 4)], (0, 2)):
            yield ["s5x5", [4000.0 + v for v in z], 3, "priority"]

    return [
        Space("3x3", s33, run_c06, "three level 3x3 DEMs with one lowest cell"),
        Space("4x4", s44, run_c06, "4x4, two levels over one outlet"),
        Space("3x5", s35, run_c06, "3x5 vertex grid, two levels over one outlet"),
        Space("plateau5x5", s55, run_c06, "5x5 plateau with every pair of lower cells"),
        Space("large", large, run_c06, "fixed terrains of several hundred cells", chunk=2),
        Space("variants", variants, run_c06, "closed rings, several layers"),
        Space("lines", lines, run_c06, "rows of 2 to 8 cells, and long flat rows"),
        Space("meshes", zoo, run_c06, "irregular meshes"),
        Space("nans", nans, run_c06, "nan cells"),
        Space("terminals", terms, run_c06, "terminal cells and tied minima"),
        Space("threshold", thr, run_c06, "rises below the burn threshold are flat"),
        Space("conditioned", conditioned, run_c06_conditioned,
              "fill_sinks to one outlet, then flow directions"),
    ]


# ------------------------------------------------------------------------- C07
def solved(ctx, case_z, mname, terms=(), thr=None):
    """-> mesh, z, FlowDirections, fdir list"""
    m = mesh(mname)
    z = floats(case_z)
    fa = build(ctx, m, z, check=False)
    kw = {}
    if terms:
        kw["terminal_cells"] = list(terms)
    if thr is not None:
        kw["burn_threshold"] = thr
    return m, z, fa, directions(ctx, fa, m, **kw)


def run_c07(ctx, case):
    mname, z, terms = case
    m, z, fa, f = solved(ctx, z, mname, terms)
    ctx.op(4)
    cells = fa.flow_accumulation(as_cells=True)
    require(np.shape(cells) == m.shape, "accumulation has shape %s", np.shape(cells))
    require(np.array_equal(fa.flow_accumulation_array, cells),
            "flow_accumulation_array differs from the returned cell count")
    cells = [float(v) for v in np.ravel(cells)]
    paths = [int(v) for v in np.ravel(fa.get_nidp())]
    require(paths == [sum(1 for n in m.adj[c] + [c] if f[n] == c) for c in range(m.n)],
            "input drainage paths %s of directions %s", paths, f)
    area = fa.flow_accumulation()
    require(np.array_equal(fa.flow_accumulation_array, area),
            "flow_accumulation_array differs from the returned area")
    area = [float(v) for v in np.ravel(area)]
    own = [float(v) for v in np.ravel(fa.area)]
    for c in range(m.n):
        require(m.same_area(own[c], m.area[c]), "cell %s has area %s, not %s",
                c, own[c], m.area[c])
    if m.n > 2000:
        n_ups, a_ups = model.tally(f, [1] * m.n), model.tally(f, m.area)
        for c in range(m.n):
            require(cells[c] == n_ups[c], "cell %s accumulates %s cells, %s drain "
                    "through it", c, cells[c], n_ups[c])
            require(m.same_area(area[c], a_ups[c]), "cell %s accumulates area "
                    "%s, %s drains through it", c, area[c], a_ups[c])
        return max(cells)
    up = model.contributors(f)
    loop = model.on_cycle(f)
    for c in range(m.n):
        n_up, a_up = len(up[c]), sum(m.area[u] for u in up[c])
        if c not in loop:
            require(cells[c] == n_up, "cell %s accumulates %s cells, %s drain through it",
                    c, cells[c], n_up)
            require(m.same_area(area[c], a_up),
                    "cell %s accumulates area %s, %s drains through it", c, area[c], a_up)
        else:
            # a circulating cell has no finite upslope sum
            require(1 <= cells[c] <= n_up, "circulating cell %s accumulates %s of %s cells",
                    c, cells[c], n_up)
            require(m.area[c] * (1 - m.area_tol) <= area[c] <= a_up * (1 + m.area_tol),
                    "circulating cell %s accumulates area %s of %s", c, area[c], a_up)
    if not loop:
        ends = [c for c in range(m.n) if f[c] == c or f[c] < 0]
        require(sum(cells[c] for c in ends) == m.n, "outlets do not collect every cell")
    return f, cells


def c07(tier):
    deep = tier == "thorough"

    def s33():
        for z in gen.dems(9, (0, 1, 2)):
            yield ["s3x3", z, []]

    def s24():
        for z in gen.dems(8, (0, 1, 2) if not deep else (0, 1, 2, 3)):
            yield ["s2x4w", z, []]

    def s44():
        for z in gen.dems(15, (1, 2)):
            if deep or sum(z) % 4 == 0:
                yield ["s4x4w", [0] + z, []]

    def trees():
        # strictly ordered elevations: every drainage tree without ties
        for p in itertools.permutations(range(6)):
            yield ["s2x3w", list(p), []]
            yield ["u2x3", list(p), []]
        for p in itertools.permutations(range(7)):
            if deep or p[0] < 3:
                yield ["s1x7", list(p), []]
                yield ["hex:v", list(p), []]

    def zoo():
        for name in ZOO:
            for z in gen.dems(mesh(name).n, (0, 1, 2)):
                if deep or sum(z) % 2:
                    yield [name, z, []]

    def nans():
        for z in gen.dems(9, (0, 1, None)):
            if any(v is not None for v in z):
                yield ["v3x3", z, []]

    def terms():
        for z in gen.dems(6, (0, 1, 2)):
            for t in gen.subsets(6, (1, 2)):
                yield ["s2x3", z, t]

    def long():
        for n in (40, 400, 1500):
            for o in (0, n // 2, n - 1):
                yield [f"s1x{n}", [abs(i - o) for i in range(n)], []]
        # more cells than a two byte counter holds
        yield ["u40000x1", ["terrain", "u40000x1", 1, 0, "plane"], []]
        yield ["s1x70000", ["terrain", "s1x70000", 1, 40000, "plane"], []]
        yield ["s200x200", ["terrain", "s200x200", 1, 150, "plane"], []]

    def large():
        for name, z in big(range(5 if not deep else 50), ("rough", "plane", "steps", "nan")):
            yield [name, z, []]

    def variants():
        for name in VARIANTS:
            for z in gen.relief(gen.dems(mesh(name).n, (0, 1, 2))):
                yield [name, z, []]

    return [
        Space("large", large, run_c07, "fixed terrains of several hundred cells", chunk=2),
        Space("variants", variants, run_c07, "closed rings, several layers"),
        Space("3x3", s33, run_c07, "every three level 3x3 DEM"),
        Space("2x4", s24, run_c07, "every three level 2x4 DEM, uneven cell areas"),
        Space("4x4", s44, run_c07, "4x4, two levels over one outlet, uneven areas"),
        Space("orders", trees, run_c07, "every elevation order of six and seven cells"),
        Space("meshes", zoo, run_c07, "irregular meshes"),
        Space("nans", nans, run_c07, "nan cells"),
        Space("terminals", terms, run_c07, "terminal cells"),
        Space("long", long, run_c07, "flow paths of up to 70000 cells", chunk=1),
    ]


# ------------------------------------------------------------------------- C08
FORMS = ("tuple", "list", "array", "shapely", "flopy")


def run_c08(ctx, case):
    mname, z, terms, form, how = case
    m, z, fa, f = solved(ctx, z, mname, terms)
    pts = range(m.n)
    if m.n > 100:
        # the outlets and a spread of other cells
        pts = sorted({c for c in pts if f[c] == c} |
                     set(range(how, m.n, 1 + m.n // (24 if m.n < 5000 else 2))))
    up = model.contributors(f) if m.n < 5000 else {c: model.upstream(f, c) for c in pts}
    given = []
    for c in pts:
        ctx.op()
        w = fa.get_watershed_boundary(as_point(inside_point(m, c, how), form))
        require(np.shape(w) == m.shape, "watershed has shape %s", np.shape(w))
        got = {int(i) for i in np.flatnonzero(np.ravel(w))}
        require(got == up[c], "watershed of cell %s is %s, cells draining through it %s",
                c, sorted(got), sorted(up[c]))
        require(set(np.ravel(w).tolist()) <= {0, 1}, "watershed labels %s",
                set(np.ravel(w).tolist()))
        given.append((c, w, got))
    for c, w, got in given:
        require({int(i) for i in np.flatnonzero(np.ravel(w))} == got,
                "the watershed of cell %s changed when others were asked for", c)
    return f


def c08(tier):
    deep = tier == "thorough"

    def rot(seq, name, terms=()):
        for z, form, how in gen.cycle_with(seq, FORMS, (0, 1, 2, 3, 4, 5, 6)):
            yield [name, z, list(terms), form, how]

    def s33():
        yield from rot((z for z in gen.dems(9, (0, 1, 2)) if deep or z.count(0) < 4), "s3x3")

    def s23():
        yield from rot(gen.dems(6, (0, 1, 2, 3)), "s2x3r")
        yield from rot(gen.dems(6, (0, 1, 2)), "v2x3o")
        yield from rot(gen.dems(6, (0, 1, 2)), "u2x3w")

    def nans():
        for name in ("v3x3", "s3x3o"):
            yield from rot((z for z in gen.dems(9, (0, 1, None))
                            if z.count(None) < 4 and (deep or z.count(0) < 5)), name)

    def zoo():
        for name in ZOO:
            yield from rot((z for z in gen.dems(mesh(name).n, (0, 1, 2))
                            if deep or sum(z) % 3 == 0), name)

    def orders():
        yield from rot((list(p) for p in itertools.permutations(range(7))
                        if deep or p[0] < 2), "s1x7")
        for t in gen.subsets(6, (1, 2)):
            yield from rot((list(p) for p in itertools.permutations(range(6))
                            if p[0] < 2), "s2x3", t)

    def large():
        seq = list(big(range(4 if not deep else 40), ("rough", "plane", "steps", "nan")))
        seq += [(nm, ["terrain", nm, 1, o, "plane"])
                for nm in ("s1x1400", "u1400x1") for o in (0, 700, 1399)]
        for (name, z), form, how in gen.cycle_with(seq, FORMS, (0, 1, 2, 3, 4, 5, 6)):
            yield [name, z, [], form, how]

    def variants():
        for name in VARIANTS:
            yield from rot(gen.relief(z for z in gen.dems(mesh(name).n, (0, 1, 2))
                                      if deep or sum(z) % 4 == 0), name)

    def huge():
        for i, (name, z) in enumerate(huge_dems()):
            yield [name, z, [], FORMS[i % 5], i]

    return [
        Space("large", large, run_c08, "fixed terrains of several hundred cells", chunk=1),
        Space("huge", huge, run_c08, "more than 65536 cells", chunk=1),
        Space("variants", variants, run_c08, "closed rings, several layers"),
        Space("3x3", s33, run_c08, "3x3 DEMs x every pour point"),
        Space("2x3", s23, run_c08, "2x3 rotated, offset and uneven grids x every pour point"),
        Space("nans", nans, run_c08, "nan cells"),
        Space("meshes", zoo, run_c08, "irregular meshes x every pour point"),
        Space("orders", orders, run_c08, "elevation orders, with terminal cells"),
    ]


# ------------------------------------------------------------------------- C09
def check_subbasins(m, f, outlets, s):
    require(np.shape(s) == m.shape, "subbasins have shape %s", np.shape(s))
    s = [int(v) for v in np.ravel(s)]
    mem = set(outlets)
    label = {o: s[o] for o in outlets}
    require(sorted(label.values()) == list(range(1, len(outlets) + 1)),
            "outlets %s have labels %s", outlets, [label[o] for o in outlets])
    first = model.all_first_downstream(f, mem) if m.n > 100 else None
    for c in range(m.n):
        d = first[c] if first else model.first_downstream(f, mem, c)
        want = 0 if d is None else label[d]
        require(s[c] == want, "cell %s has label %s; its first outlet downstream is %s "
                "with label %s", c, s[c], d, want)
    for o in outlets:
        if f[o] >= 0 and f[o] != o:
            d = first[f[o]] if first else model.first_downstream(f, mem, f[o])
            require(d is None or label[o] < label[d],
                    "subbasin of cell %s (%s) drains to that of cell %s (%s)",
                    o, label[o], d, label.get(d))
    return s


def run_c09(ctx, case):
    mname, z, outlets, form, how = case
    m, z, fa, f = solved(ctx, z, mname)
    if outlets and outlets[0] == "every":
        outlets = list(range(*outlets[1:3], 1)[::outlets[3]])
    if set(outlets) & model.on_cycle(f):
        return None
    pts = [inside_point(m, o, how) for o in outlets]
    if m.n < 5000 and gen.key(case) % 4 == 0:
        # the same outlets again: right after the first, and at the end
        pts.insert(1, inside_point(m, outlets[0], 1))
        pts.append(inside_point(m, outlets[gen.key(case) // 4 % len(outlets)]))
    if form == "rows":
        pts = np.array(pts)
    elif form == "tuple":
        pts = tuple(pts)
    elif form in ("shapely", "flopy"):
        pts = [as_point(p, form) for p in pts]
    ctx.op()
    return check_subbasins(m, f, outlets, fa.get_subbasins(pts))


def c09(tier):
    deep = tier == "thorough"
    forms = ("list", "rows", "shapely", "tuple", "flopy", "list")

    def rot(seq, name):
        for (z, o), form, how in gen.cycle_with(seq, forms, (0, 1, 2, 3, 4, 5, 0)):
            yield [name, z, list(o), form, how]

    def orders():
        zs = [list(p) for p in itertools.permutations(range(6)) if deep or p[0] < 2]
        yield from rot(((z, o) for z in zs for k in (1, 2, 3)
                        for o in itertools.permutations(range(6), k)
                        if deep or k < 3 or o[0] < o[1] or o[1] == 0), "s1x6")

    def s23():
        yield from rot(((z, o) for z in gen.dems(6, (0, 1, 2)) if z.count(0) == 1
                        for k in (1, 2, 3, 4) for o in itertools.permutations(range(6), k)
                        if deep or k < 3 or o[0] > o[-1]), "s2x3")

    def s33():
        zs = [z for z in gen.dems(8, (1, 2)) if deep or sum(z) % 2]
        for at, name in ((0, "s3x3r"), (8, "v3x3")):
            yield from rot(((z[:at] + [0] + z[at:], o) for z in zs
                            for o in itertools.chain(
                                itertools.permutations(range(9), 2),
                                ((0, 4, 8), (8, 4, 0), (4, 0, 8), (3, 1, 5, 0),
                                 (6, 7, 8, 3, 4, 5, 0), tuple(range(9)),
                                 tuple(range(8, -1, -1))))), name)

    def zoo():
        for name in ("tri:v", "quad:u", "hex:v", "ring:u"):
            n = mesh(name).n
            yield from rot(((list(z), o) for z in gen.dems(n, (0, 1, 2))
                            if z.count(0) == 1 and (deep or sum(z) % 2)
                            for o in ((0, n - 1), (n - 1, 2), (3, 1, 4),
                                      tuple(range(n)))), name)

    def nans():
        yield from rot(((z, o) for z in gen.dems(6, (0, 1, 2, None))
                        if None in z and z.count(None) < 3
                        for o in ((0, 5), (5, 0), (2, 3, 4), (1,))), "v2x3")

    def large():
        seq = []
        for name, z in big(range(3 if not deep else 30), ("rough", "plane", "steps", "nan")):
            n = mesh(name).n
            for o in (["every", 0, n, n // 12], ["every", 3, n, -(n // 40)],
                      ["every", n // 3, n // 2, 5], [n - 1, 0]):
                seq.append((name, z, o))
        # outlets several hundred cells apart, in both directions
        for name in ("s1x1400", "u1400x1", "s2x400"):
            n = mesh(name).n
            for at in (0, n - 1, n // 2):
                for o in ([5, 690], [n - 10, 5], [n - 1, 0, 350], [350, 20, 340, 0],
                          ["every", 0, n, 4 if n == 1400 else 3], ["every", 0, n, -7]):
                    seq.append((name, ["terrain", name, 1, at, "plane"], o))
        if not deep:
            # the outlets every few cells of one long row only
            seq = [s for i, s in enumerate(seq) if not (
                mesh(s[0]).n == 1400 and s[2][0] == "every" and (s[2][3] > 0) == (s[0][0] == "u"))]
        for (name, z, o), form, how in gen.cycle_with(seq, forms, (0, 1, 2, 3, 4, 5, 0)):
            yield [name, z, o, form, how]

    def variants():
        for name in VARIANTS:
            n = mesh(name).n
            yield from rot(((list(z), o)
                            for z in gen.relief(gen.dems(n, (0, 1, 2), unique_min=True))
                            for o in ((0, n - 1), (n - 1, 2), (3, 1, 4))), name)

    def huge():
        # more than a thousand outlets
        yield ["s1x1400", ["terrain", "s1x1400", 1, 1399, "plane"], ["every", 100, 1300, 1],
               "rows", 3]
        yield ["u30x40", ["terrain", "u30x40", 1, 0, "plane"], ["every", 0, 1200, -1], "list", 1]
        for i, (name, z) in enumerate(huge_dems()):
            n = mesh(name).n
            yield [name, z, ([n - 1, n - 2000, n - 9], [5, 66000, 67000, 0])[i % 2], forms[i % 6], i]

    return [
        Space("huge", huge, run_c09, "more than 65536 cells, more than 1000 outlets", chunk=1),
        Space("large", large, run_c09, "fixed terrains of several hundred cells, outlets "
              "hundreds of cells apart", chunk=1),
        Space("variants", variants, run_c09, "closed rings, several layers"),
        Space("orders", orders, run_c09, "elevation orders of a row x outlet orders"),
        Space("2x3", s23, run_c09, "2x3 DEMs x ordered outlet lists of one to four cells"),
        Space("3x3", s33, run_c09, "3x3 DEMs x ordered outlet lists"),
        Space("meshes", zoo, run_c09, "irregular meshes"),
        Space("nans", nans, run_c09, "nan cells"),
    ]


# ------------------------------------------------------------------------- C12
def shared_point(m, a, b):
    v = [m.verts[i] for i in m.cells[a] if i in set(m.cells[b])]
    return (sum(p[0] for p in v) / len(v), sum(p[1] for p in v) / len(v))


def run_c12(ctx, case):
    mname, z, terms = case[:3]
    m, z, fa, f = solved(ctx, z, mname, terms, case[3] if len(case) > 3 else None)
    ctx.op(5)
    out = dict(slope=fa.slope, aspect=fa.aspect, hru_len=fa.hru_len, area=fa.area)
    u, v = fa.vectors
    for k in ("slope", "aspect"):
        require(np.shape(out[k]) == m.shape, "%s has shape %s", k, np.shape(out[k]))
    sl, asp, hl, ar = (np.ravel(out[k]) for k in ("slope", "aspect", "hru_len", "area"))
    u, v = np.ravel(u), np.ravel(v)
    for k, a in (("hru_len", hl), ("area", ar), ("u", u), ("v", v)):
        require(a.size == m.n, "%s has %s values", k, a.size)
    to = [c if f[c] < 0 else f[c] for c in range(m.n)]
    into = {}
    for c in range(m.n):
        into.setdefault(to[c], []).append(c)
    for c in range(m.n):
        require(m.same_area(ar[c], m.area[c]), "area of cell %s: %s, expected %s",
                c, ar[c], m.area[c])
        t = to[c]
        if t == c:
            require(sl[c] == 0, "cell %s does not drain but has slope %s", c, sl[c])
            require(hl[c] >= 0, "cell %s has length %s", c, hl[c])
        else:
            drop = z[c] - z[t]
            if 0 < drop < 1e-6:
                drop = 0.0
            want = drop / m.dist(c, t)
            require(model.close(sl[c], want, 1e-9), "slope of cell %s: %s, expected %s",
                    c, sl[c], want)
            dx, dy = m.xc[t] - m.xc[c], m.yc[t] - m.yc[c]
            require(-1e-9 <= asp[c] <= 360 + 1e-9, "aspect of cell %s: %s", c, asp[c])
            d = math.hypot(dx, dy)
            r = math.radians(asp[c])
            require(abs(math.cos(r) - dx / d) < 1e-9 and abs(math.sin(r) - dy / d) < 1e-9,
                    "aspect of cell %s: %s, but it flows (%s, %s)", c, asp[c], dx, dy)
            require(abs(u[c] - dx / d) < 1e-9 and abs(v[c] - dy / d) < 1e-9,
                    "vector of cell %s: (%s, %s), but it flows (%s, %s)",
                    c, u[c], v[c], dx, dy)
            pts = [shared_point(m, c, t)]
            pts += [shared_point(m, c, o) for o in into.get(c, ())]
            ds = [math.hypot(x - m.xc[c], y - m.yc[c]) for x, y in pts]
            require(model.close(hl[c], 2 * sum(ds) / len(ds), 1e-9),
                    "length of cell %s: %s, expected %s", c, hl[c], 2 * sum(ds) / len(ds))
        require(abs(u[c] ** 2 + v[c] ** 2 - 1) < 1e-9, "vector of cell %s is not unit", c)
    return f, [round(float(x), 9) for x in hl]


def c12(tier):
    deep = tier == "thorough"

    def s33():
        for name in ("s3x3", "s3x3r") if not deep else ("s3x3", "s3x3r", "s3x3w", "v3x3o"):
            for z in gen.dems(9, (0, 1, 2.5)):
                if deep or z.count(0) == 1:
                    yield [name, z, []]

    def s23():
        for z in gen.dems(6, (0, 1, 2, 3)):
            yield ["s2x3w", z, []]
            if z[0] < 2:
                yield ["u2x3r", z, []]

    def s25():
        for z in gen.dems(9, (1, 2)):
            yield ["s2x5w", [-5] + z, []]
            yield ["v5x2", z[:4] + [-5] + z[4:], []]

    def zoo():
        for name in ZOO + ["quad:v", "strip:u"]:
            for z in gen.dems(mesh(name).n, (0, 1, 2)):
                if deep or sum(z) % 2:
                    yield [name, z, []]

    def small():
        for z in gen.dems(6, (0, 4e-7, 1, 1 + 4e-7, 1 + 2e-6)):
            if deep or z[0] != 1:
                yield ["s2x3", z, []]
        # the flatness limit of slope does not follow the burn threshold
        for z in gen.dems(6, (0, 0.25, 1, 1.25)):
            yield ["s2x3w", z, [], 0.5]
            if deep or z[0] == 1:
                yield ["v3x2", z, [], 0.25]
                yield ["u2x3r", z, [], 0.0]
                yield ["hex:v", z + [1.25], [], 2.0]

    def large():
        for name, z in big(range(5 if not deep else 50), ("rough", "plane", "steps", "nan", "raw")):
            yield [name, z, []]
        for n in (300, 1500):
            yield [f"s1x{n}", ["terrain", f"s1x{n}", 1, n // 3, "plane"], []]

    def variants():
        for name in VARIANTS:
            for z in gen.relief(gen.dems(mesh(name).n, (0, 1, 2))):
                yield [name, z, []]

    def nans():
        for z in gen.dems(6, (0, 1, 3, None)):
            if any(v is not None for v in z):
                yield ["v2x3", z, []]
        for z in gen.dems(6, (0, 1, 3)):
            for t in gen.subsets(6, (1,)):
                yield ["s2x3o", z, t]

    return [
        Space("3x3", s33, run_c12, "3x3 even and rotated grids"),
        Space("2x3", s23, run_c12, "2x3 uneven and rotated grids, four levels"),
        Space("2x5", s25, run_c12, "2x5 and 5x2 grids, negative outlet"),
        Space("meshes", zoo, run_c12, "irregular meshes"),
        Space("threshold", small, run_c12, "steps around the flatness limit, several "
              "burn thresholds"),
        Space("large", large, run_c12, "fixed terrains of several hundred cells", chunk=2),
        Space("variants", variants, run_c12, "closed rings, several layers"),
        Space("nans", nans, run_c12, "nan cells, terminal cells"),
    ]


# ------------------------------------------------------------------------- C10
def pipeline(ctx, m, z, outlets):
    """every result of the library on one grid, as comparable values"""
    from dany import PrmsStreams, Sfr6, fill_nan_values

    out = {}

    def put(name, value):
        out[name] = np.ravel(np.asarray(value, dtype=float)).tolist()

    g = m.grid()
    a = m.arr(z)
    if any(v != v for v in z):
        ctx.op()
        # the order in which nans are filled is free; one nan at most
        a = fill_nan_values(g, a)
        put("nan filled", a)
    for me in ("priority", "complete", "drain"):
        ctx.op()
        put("filled " + me, fill_sinks(g, a, method=me))
    mask = np.zeros(m.n, dtype=bool)
    mask[outlets] = True
    ctx.op(9)
    put("filled to streams", fill_sinks(g, a, stream_mask=mask.reshape(m.shape)))
    fa = FlowDirections(g, a, check_elevations=False)
    f = fa.flow_directions()
    put("flow directions", f)
    put("cells", fa.flow_accumulation(as_cells=True))
    put("area", fa.flow_accumulation())
    for k in ("slope", "aspect", "hru_len", "area"):
        put(k, getattr(fa, k))
    put("vectors", fa.vectors)
    f = [int(v) for v in np.ravel(f)]
    p = outlets[0]
    put("watershed", fa.get_watershed_boundary(inside_point(m, p, 1)))
    if not model.on_cycle(f):
        put("subbasins", fa.get_subbasins([inside_point(m, o) for o in outlets]))
    fa.flow_accumulation(as_cells=True)
    ctx.op(9)
    s6 = Sfr6(g, fa)
    put("streams", s6.delineate_streams(2))
    if out["streams"].count(1.0):
        put("reaches", sorted(s6.get_stream_connectivity().items()))
        put("reach array", s6.stream_array)
        pk = s6.packagedata()
        term = {r for r, t in s6.get_stream_connectivity().items() if t in (0, r)}
        put("rlen", [r["rlen"] for r in pk if r["ifno"] + 1 not in term])
        for k in ("ifno", "rgrd", "rtp", "ncon"):
            put(k, pk[k])
        out["connections"] = [tuple(int(i) for i in r) for r in s6.connectiondata()]
        pr = PrmsStreams(g, fa)
        pr.delineate_streams(2)
        put("segments", sorted(pr.get_stream_connectivity(group_segments=True).items()))
        put("segment array", pr.stream_array)
        for name, links in (("cascade ", pr.get_cascades()),
                            ("many cascade ", pr.get_cascades(many2many=True))):
            # the order of the links of a cell is free
            links = sorted(zip(links[0], links[1], links[3], links[2]))
            for i, k in enumerate(("up", "down", "seg", "pct")):
                put(name + k, [v[i] for v in links])
        vec = s6.create_stream_vectors(s6.stream_array)
        out["vectors of"] = sorted(vec)
        for k in sorted(vec):
            put(f"stream vector {k}", vec[k])
    put("control points", s6.threshold_from_control_points(
        [inside_point(m, o) for o in outlets], 3))
    return out


def run_c10(ctx, case):
    base, z, outlets = case
    z = floats(z)
    ref = None
    kinds = ("s", "v", "u")
    if ":" in base:
        kinds = (base + "v", base + "u", base + "vq", base + "uq")
    for k in kinds:
        name = k if ":" in base else k + base
        got = pipeline(ctx, mesh(name), z, outlets)
        if ref is None:
            ref, rname = got, name
            continue
        require(set(ref) == set(got), "%s and %s give different results: %s",
                rname, name, set(ref) ^ set(got))
        for key in ref:
            a, b = ref[key], got[key]
            same = len(a) == len(b) and all(
                x == y or (isinstance(x, float) and model.close(x, y, 1e-9))
                for x, y in zip(a, b))
            require(same, "%s: %s on %s, %s on %s", key, a, rname, b, name)
    return ref["flow directions"], ref["segments"] if "segments" in ref else None


def c10(tier):
    deep = tier == "thorough"

    def s23():
        for z in gen.dems(6, (0, 1, 2)):
            yield ["2x3", z, [0, 4]]
            if deep:
                yield ["2x3r", z, [5, 1]]

    def s33():
        for at in (0, 4) if not deep else (0, 1, 4, 8):
            for z in gen.dems(8, (1, 2)):
                yield ["3x3w", z[:at] + [0] + z[at:], [at, 5]]

    def s34():
        for i, z in enumerate(gen.dems(11, (1, 3))):
            if deep or i % 4 == 1:
                yield ["3x4r", z[:6] + [0] + z[6:], [6, 3, 9]]

    def nan1():
        for z in gen.dems(8, (1, 2)):
            for at in (0, 4) if deep else (4,):
                if deep or sum(z) % 4 == 0:
                    yield ["3x3", z[:at] + [None] + z[at:], [1, 8]]

    def zoo():
        for name in ("tri", "quad", "hex", "ring", "bow", "ell", "strip", "hang", "isle"):
            n = mesh(name + ":v").n
            for z in gen.dems(n, (0, 1, 2) if deep else (0, 2)):
                yield [name + ":", z, [n - 1, 0]]

    def large():
        for base, name in (("12x17w", "s12x17w"), ("20x14r", "s20x14r"), ("9x30", "s9x30"),
                           ("trib:", "trib:v"), ("hexb:", "hexb:v"), ("1x320", "s1x320")):
            n = mesh(name).n
            for _, z in big(range(2 if not deep else 20), names=(name,)):
                yield [base, z, [n // 2, n - 2, n // 3]]

    def line():
        for z in gen.dems(6, (0, 1, 2)):
            if deep or sum(z) % 2:
                yield ["1x6", z, [2, 5]]

    return [
        Space("2x3", s23, run_c10, "three level 2x3 DEMs on three grid types"),
        Space("3x3", s33, run_c10, "3x3 uneven spacing"),
        Space("3x4", s34, run_c10, "3x4 rotated"),
        Space("nan", nan1, run_c10, "one nan cell"),
        Space("meshes", zoo, run_c10, "irregular meshes, vertex against unstructured"),
        Space("line", line, run_c10, "a single row"),
        Space("large", large, run_c10, "fixed terrains of a few hundred cells", chunk=1),
    ]


# ------------------------------------------------------------------------- C11
DIR_OPS = ("dir", "thr", "term")
OTHER_OPS = ("dir", "thr", "term", "cells", "area", "wshed", "wshed2", "subs", "terrain",
             "rook", "queen", "twin", "fill", "sfr")
DIR_KW = {"dir": {}, "thr": {"burn_threshold": 1.5}, "term": {"terminal_cells": [3]}}


def plain(a):
    """nested lists with nan as a value that equals itself"""
    if isinstance(a, np.ndarray):
        a = a.tolist()
    if isinstance(a, (list, tuple)):
        return [plain(v) for v in a]
    return "nan" if a != a else a


def _do(m, g, fa, op, z):
    return plain_or_none(_raw(m, g, fa, op, z))


def plain_or_none(r):
    return r if r is None or isinstance(r, str) else plain(r)


def _raw(m, g, fa, op, z):
    """run an operation, return its observable result (None if it has none)"""
    from dany import Sfr6
    if op in DIR_KW:
        return fa.flow_directions(**DIR_KW[op])
    if op == "cells":
        return fa.flow_accumulation(as_cells=True)
    if op == "area":
        return fa.flow_accumulation()
    if op == "wshed":
        return fa.get_watershed_boundary(inside_point(m, m.n - 2, 1))
    if op == "wshed2":
        return fa.get_watershed_boundary(inside_point(m, 3, 2))
    if op == "subs":
        return fa.get_subbasins([inside_point(m, 0), inside_point(m, m.n - 2)])
    if op == "terrain":
        return [fa.slope, fa.aspect, fa.hru_len, fa.area, fa.dem, *fa.vectors]
    if op == "rook":
        g.neighbors(method="rook", reset=True)
    elif op == "queen":
        g.neighbors(method="queen", as_nodes=True)
    elif op == "twin":
        t = FlowDirections(g, m.arr(z)[..., ::-1].copy(), check_elevations=False)
        t.flow_directions(burn_threshold=0.5)
        t.flow_accumulation()
    elif op == "fill":
        fill_sinks(g, m.arr(z)[..., ::-1].copy())
    elif op == "sfr":
        try:
            fa.flow_accumulation_array
        except (AttributeError, AssertionError, ValueError, TypeError):
            # nothing is accumulated yet
            fa.flow_accumulation()
            s = Sfr6(g, fa)
            s.delineate_streams(1)
            return "sfr"
        s = Sfr6(g, fa)
        s.delineate_streams(1)
        s.packagedata()
    return None


_FRESH = {}


def fresh(ctx, m, z, last, op):
    """the result of op on a new object that only ran the last flow_directions"""
    key = (m.name, tuple(z), last, op)
    if key not in _FRESH:
        if len(_FRESH) > 20000:
            _FRESH.clear()
        _FRESH[key] = core.pristine(ctx, fresh_alone, m.name, z, last, op)
    return _FRESH[key]


def fresh_alone(ctx, mname, z, last, op):
    m = mesh(mname)
    g = m.grid()
    fa = FlowDirections(g, m.arr(z), check_elevations=False)
    r = _do(m, g, fa, last, z)
    return r if op == last else _do(m, g, fa, op, z)


def run_c11(ctx, case):
    mname, z, ops = case
    m = mesh(mname)
    z = floats(z)
    g = m.grid()
    a = m.arr(z)
    keep = a.copy()
    fa = FlowDirections(g, a, check_elevations=False)
    last = acc = None
    given = []
    for i, op in enumerate(ops):
        ctx.op()
        raw = _raw(m, g, fa, op, z)
        got = plain_or_none(raw)
        given.append((op, raw, got))
        if op in DIR_KW:
            last = op
        if op in ("cells", "area"):
            acc = (op, last)
        elif got == "sfr":
            acc = ("area", last)
        if got is not None and got != "sfr":
            want = fresh(ctx, m, z, last, op)
            require(got == want, "after %s, %s gives %s; on a new object %s",
                    ops[:i], op, got, want)
        require(fa.flow_direction_array.tolist() == fresh(ctx, m, z, last, last),
                "after %s the flow direction array is %s, expected %s", ops[:i + 1],
                fa.flow_direction_array.tolist(), fresh(ctx, m, z, last, last))
        if acc is not None:
            want = fresh(ctx, m, z, acc[1], acc[0])
            require(fa.flow_accumulation_array.tolist() == want,
                    "after %s the accumulation array is %s, expected %s", ops[:i + 1],
                    fa.flow_accumulation_array.tolist(), want)
    require(np.array_equal(a, keep, equal_nan=True), "the DEM array was modified")
    for i, (op, raw, got) in enumerate(given):
        require(plain_or_none(raw) == got, "the result of %s, call %s of %s, became %s later; "
                "it was %s", op, i, ops, plain_or_none(raw), got)
    return last, acc, fresh(ctx, m, z, last, last)


def c11(tier):
    deep = tier == "thorough"
    few = [("s3x3", [0, 1, 2, 1, 1, 3, 2, 2, 4]), ("v2x3", [3, 2, 1, 3, 1, 0])]
    more = [("s2x3", [0, 2, 2, 1, 2, 3]), ("u3x3", [4, 3, 2, 3, 2, 1, 2, 1, 0]),
            ("quad:v", [3, 2, 2, 1, 1, 1, 0]), ("s2x4", [5, 1, 5, 0, 5, 1, 5, 1]),
            ("hex:u", [1, 1, 1, 1, 1, 0, 1]), ("v2x3", [1, 1, None, 2, 0, 2]),
            ("s1x6", [2, 1, 2, 1, 1, 0]), ("ring:v", [0, 1, 1, 2, 2, 3, 3, 3])]

    def seqs(tables, depth):
        for name, z in tables:
            for first in DIR_OPS:
                for rest in itertools.product(OTHER_OPS, repeat=depth - 1):
                    yield [name, z, [first] + list(rest)]

    def many():
        # a short history on many DEMs
        for z in gen.dems(6, (0, 1, 2)):
            if z.count(0) == 1:
                for ops in (("term", "wshed", "subs", "dir", "wshed2", "subs"),
                            ("dir", "cells", "term", "area", "wshed", "cells", "dir"),
                            ("thr", "wshed", "terrain", "rook", "dir", "wshed", "terrain")):
                    yield ["s2x3", z, list(ops)]

    return [
        Space("depth4", lambda: seqs(few, 4), run_c11,
              "every history of four operations on two DEMs", pristine=True),
        Space("depth3", lambda: seqs(more, 4 if deep else 3), run_c11,
              "every history of three (thorough: four) operations on eight DEMs",
              pristine=True),
        Space("dems", many, run_c11, "fixed histories on many 2x3 DEMs",
              pristine=True),
    ] + ([Space("depth5", lambda: seqs(few[:1], 5), run_c11,
                "every history of five operations", pristine=True)] if deep else [])


# ------------------------------------------------------------------------- C25
def run_c25(ctx, case):
    """the whole chain on a DEM that nobody conditioned"""
    from dany import PrmsStreams, Sfr6, Sfr2005

    mname, z, thr = case
    m, z, fa, f = solved(ctx, z, mname)
    g = m.grid()
    for c in range(m.n):
        require(f[c] == -2 or 0 <= f[c] < m.n, "cell %s flows to %s", c, f[c])
    ctx.op(6)
    acc = [float(v) for v in np.ravel(fa.flow_accumulation(as_cells=True))]
    up = model.contributors(f)
    for c in range(m.n):
        require(1 <= acc[c] <= len(up[c]), "cell %s accumulates %s, at most %s drain to it",
                c, acc[c], len(up[c]))
    for k in ("slope", "aspect", "hru_len"):
        v = np.ravel(getattr(fa, k))
        require(v.size == m.n and np.isfinite(v).all(), "%s is %s", k, v.tolist())
    for c in range(0, m.n, 1 if m.n < 100 else m.n // 9):
        w = np.ravel(fa.get_watershed_boundary(inside_point(m, c)))
        require({int(i) for i in np.flatnonzero(w)} == up[c],
                "watershed of cell %s is %s, expected %s", c,
                np.flatnonzero(w).tolist(), sorted(up[c]))
    sub = np.ravel(fa.get_subbasins([inside_point(m, c) for c in (m.n - 1, 0, m.n // 2)]))
    require(set(sub.tolist()) <= {0, 1, 2, 3}, "subbasin labels %s", sub.tolist())
    stream = {c for c in range(m.n) if acc[c] >= thr}
    if not stream:
        return f
    ctx.op(9)
    s6 = Sfr6(g, fa)
    s6.delineate_streams(thr)
    graph = s6.get_stream_connectivity()
    ids = [int(v) for v in np.ravel(s6.stream_array)]
    require({c for c in range(m.n) if ids[c]} == stream and
            sorted(ids[c] for c in stream) == list(range(1, len(stream) + 1)),
            "reach array %s for stream cells %s", ids, sorted(stream))
    for c in stream:
        want = ids[f[c]] if f[c] >= 0 else 0
        require(graph[ids[c]] == want, "reach of cell %s flows to %s, not to %s",
                c, graph[ids[c]], want)
    pk = s6.packagedata()
    require(len(pk) == len(stream), "%s package records", len(pk))
    s6.connectiondata()
    pr = PrmsStreams(g, fa)
    pr.delineate_streams(thr)
    for many in (False, True):
        u, d, pct, seg = pr.get_cascades(many2many=many)
        require(u.size == d.size == pct.size == seg.size, "cascade sizes differ")
        require(u.min() >= 1 and d.min() >= 1 and u.max() <= m.n and d.max() <= m.n,
                "cascades leave the grid: %s %s", u.tolist(), d.tolist())
    s5 = Sfr2005(g, fa)
    s5.delineate_streams(thr)
    sg = s5.get_stream_connectivity()
    seg = [int(v) for v in np.ravel(s5.stream_array)]
    require({c for c in range(m.n) if seg[c]} == stream, "segment array %s for stream cells %s",
            seg, sorted(stream))
    require(sorted(sg) == sorted({seg[c] for c in stream}), "segments %s, cells have %s",
            sorted(sg), seg)
    require(all(v == 0 or v in sg for v in sg.values()), "segments flow to %s", sg)
    ib = [int(v) for v in np.ravel(s5.irunbnd())]
    for c in range(m.n):
        d = model.first_downstream(f, stream, c)
        want = 0 if d is None else seg[d]
        require(ib[c] == want, "cell %s runs off to segment %s, expected %s", c, ib[c], want)
    s5.create_stream_vectors()
    if m.kind == "s":
        rd = s5.reach_data()
        require(sorted(int(v) for v in rd["node"]) == sorted(stream),
                "reaches are in cells %s", sorted(int(v) for v in rd["node"]))
        s5.segment_data()
    s5.threshold_from_control_points([inside_point(m, c) for c in sorted(stream)[:2]])
    return f, graph


def c25(tier):
    deep = tier == "thorough"

    def s33():
        for z in gen.dems(9, (0, 1, 2)):
            if deep or sum(z) % 4 == 0:
                yield ["s3x3", z, 2]

    def s24():
        for z in gen.dems(8, (0, 1, 2)):
            if deep or sum(z) % 3 == 0:
                yield ["s2x4", z, 1 + z[0]]

    def nans():
        for z in gen.dems(6, (0, 1, 2, None)):
            if any(v is not None for v in z):
                yield ["s2x3", z, 1]
        for z in gen.dems(9, (0, 1, None)):
            if any(v is not None for v in z) and (deep or hash_sum(z) % 8 == 0):
                yield ["v3x3", z, 2]

    def zoo():
        for name in ZOO:
            for z in gen.dems(mesh(name).n, (0, 1, 2)):
                if deep or hash_sum(z) % 3 == 0:
                    yield [name, z, 2]

    def pits44():
        for z in gen.dems(16, (0, 1)):
            if hash_sum(z) % (2 if deep else 16) == 1:
                yield ["s4x4", z, 2]

    def flat():
        for name in ("s1x2", "s2x1", "s2x2", "s4x4", "s5x5", "v3x4", "hex:u", "gap:v",
                     "gap:u", "isle:v"):
            for lv in (0, 7.5, -3):
                yield [name, [lv] * mesh(name).n, 1]
        for z in gen.dems(6, (0, 1, 2)):
            yield ["gap:v", z, 1]

    def large():
        for name, z in big(range(4 if not deep else 40), ("raw", "steps", "nan")):
            yield [name, z, 1 + z[2] % 3]

    def variants():
        for name in VARIANTS:
            for z in gen.relief(z for z in gen.dems(mesh(name).n, (0, 1, 2))
                                if deep or sum(z) % 4 == 0):
                yield [name, z, 2]

    return [
        Space("large", large, run_c25, "fixed noise of several hundred cells", chunk=1),
        Space("variants", variants, run_c25, "closed rings, several layers"),
        Space("3x3", s33, run_c25, "3x3 DEMs with pits and flats"),
        Space("2x4", s24, run_c25, "2x4 DEMs with pits and flats"),
        Space("nans", nans, run_c25, "nan cells"),
        Space("meshes", zoo, run_c25, "irregular meshes"),
        Space("4x4", pits44, run_c25, "4x4 two level DEMs"),
        Space("flat", flat, run_c25, "constant DEMs, islands, tiny grids"),
    ]
