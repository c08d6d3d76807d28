"""how calls combine: refused calls C26, input forms C27, shared objects C28"""
import itertools
import os
import pathlib
import shutil
import tempfile

import numpy as np

from mc import core, gen
from mc.core import Space, require
from mc.grids import mesh

from dany import FlowDirections, PrmsStreams, Sfr6, Sfr2005, fill_nan_values, fill_sinks

from checks.flow import floats, inside_point, plain
from checks.stream import canon, stream_array, unique_low

BUILDERS = {"6": Sfr6, "5": Sfr2005, "p": PrmsStreams}


def result(x):
    """comparable form of any result"""
    if isinstance(x, (list, tuple)) and x and isinstance(x[0], np.ndarray):
        return [result(v) for v in x]
    if isinstance(x, np.ndarray) and not x.dtype.names:
        return [list(x.shape), plain(x.tolist())]
    return canon(x)


def quads(fa):
    return [np.ravel(v) for v in (fa.slope, fa.aspect, fa.hru_len, fa.area, fa.dem)
            + tuple(fa.vectors)]


# ------------------------------------------------------------------------- C26
FLOW_OK = ("dir", "term", "cells", "area", "wshed", "subs", "terrain")
FLOW_BAD = ("badrc", "badtc", "badws", "outws", "badsub", "outsub")
OUT = (-1.0e6, 2.0e6)


def flow_call(m, fa, op):
    if op == "dir":
        return fa.flow_directions()
    if op == "term":
        return fa.flow_directions(burn_threshold=0.5, terminal_cells=[m.n - 2])
    if op == "cells":
        return fa.flow_accumulation(as_cells=True)
    if op == "area":
        return fa.flow_accumulation()
    if op == "wshed":
        return fa.get_watershed_boundary(inside_point(m, m.n - 2, 1))
    if op == "subs":
        return fa.get_subbasins([inside_point(m, 0), inside_point(m, m.n - 2)])
    if op == "terrain":
        return quads(fa)
    # refused: row and column on a grid without, or outside of the grid
    if op == "badrc":
        return fa.flow_directions(terminal_cells=[(0, 0)] if m.kind != "s" else
                                  [(0, 0), (m.nrow + 3, 0)])
    if op == "badtc":
        return fa.flow_directions(burn_threshold=1.5, terminal_cells=[0, m.n + 5])
    if op == "badws":
        return fa.get_watershed_boundary(inside_point(m, 1) + (0.0,))
    if op == "outws":
        return fa.get_watershed_boundary(OUT)
    if op == "badsub":
        return fa.get_subbasins([inside_point(m, 1), inside_point(m, 0) + (0.0,)])
    if op == "outsub":
        return fa.get_subbasins([inside_point(m, 1), OUT])
    raise ValueError(op)


STREAM_OK = {
    "6": ("del", "set", "conn", "cd", "pk", "vec"),
    "5": ("del", "set", "connT", "connF", "rd", "sd", "ir", "bld", "cp"),
    "p": ("del", "set", "connT", "connF", "cas", "casM", "bld", "casB"),
}
STREAM_BAD = {"6": ("badset", "baddel", "badcp", "outcp"),
              "5": ("badset", "baddel", "badkey", "badkey2"),
              "p": ("badset", "baddel", "badcp")}


def stream_call(m, b, op):
    A = [c for c in range(m.n) if c % 3 != 1]
    if op == "del":
        return b.delineate_streams(2)
    if op == "set":
        return b.set_stream_array(stream_array(m, A, "int"))
    if op == "conn":
        return b.get_stream_connectivity()
    if op in ("connT", "connF"):
        return b.get_stream_connectivity(group_segments=op == "connT")
    if op == "cd":
        return b.connectiondata()
    if op == "pk":
        return b.packagedata()
    if op == "vec":
        return b.create_stream_vectors()
    if op == "rd":
        return b.reach_data()
    if op == "sd":
        return b.segment_data()
    if op == "ir":
        return b.irunbnd()
    if op == "bld":
        return b.get_pygsflow_builder_object()
    if op == "cas":
        return b.get_cascades()
    if op == "casM":
        return b.get_cascades(many2many=True)
    if op == "casB":
        return b.get_cascades(basin_boundary=m.arr([0 if c == 1 else 2 for c in range(m.n)]))
    if op == "cp":
        return b.threshold_from_control_points([inside_point(m, m.n // 2)], 3)
    if op == "bldK":
        # options of one call
        return b.get_pygsflow_builder_object(width1=4.5, min_slope=0.4, strhc1=3.0)
    # refused
    if op == "badset":
        return b.set_stream_array(np.ones(m.n + 1, dtype=int))
    if op == "baddel":
        return b.delineate_streams(np.ones(m.n - 1))
    if op == "badcp":
        return b.threshold_from_control_points(
            [inside_point(m, 0), inside_point(m, 1) + (0.0,)], 3)
    if op == "outcp":
        return b.threshold_from_control_points([inside_point(m, 0), OUT], 3)
    if op == "badkey":
        return b.get_pygsflow_builder_object(width2=7.0, width3=4.0)
    if op == "badkey2":
        return b.get_pygsflow_builder_object(apply_defaults=False, width3=4.0)
    raise ValueError(op)


def refused(call):
    """-> (True, None) or (False, result)"""
    try:
        return False, call()
    except Exception:  # noqa: BLE001  any refusal is one
        return True, None


def run_c26_flow(ctx, case):
    mname, z, ops = case
    m = mesh(mname)
    z = floats(z)

    def start():
        ctx.op(2)
        fa = FlowDirections(m.grid(), m.arr(z), check_elevations=False)
        fa.flow_directions()
        fa.flow_accumulation()
        return fa

    full, plainly, trail = start(), start(), []
    for i, op in enumerate(list(ops) + ["wshed", "subs", "terrain"]):
        ctx.op()
        if op in FLOW_BAD:
            no, r = refused(lambda: flow_call(m, full, op))
            require(no, "after %s, %s is not refused but gives %s", ops[:i], op, r)
        else:
            a = result(flow_call(m, full, op))
            b = result(flow_call(m, plainly, op))
            require(a == b, "after %s, %s gives %s; without the refused calls %s",
                    ops[:i], op, a, b)
            trail.append(a)
        for k in ("flow_direction_array", "flow_accumulation_array"):
            a, b = result(getattr(full, k)), result(getattr(plainly, k))
            require(a == b, "after %s, %s is %s; without the refused calls %s",
                    ops[:i + 1], k, a, b)
    return trail


def run_c26_stream(ctx, case):
    mname, z, which, ops = case
    m = mesh(mname)
    z = floats(z)

    def start():
        ctx.op(3)
        g = m.grid()
        fa = FlowDirections(g, m.arr(z), check_elevations=False)
        fa.flow_directions()
        fa.flow_accumulation(as_cells=True)
        return BUILDERS[which](g, fa)

    full, plainly, trail = start(), start(), []
    streams = False
    for i, op in enumerate(list(ops) + ["vec", STREAM_OK[which][2], STREAM_OK[which][4]]):
        ctx.op()
        if op in STREAM_BAD[which] or not (streams or op in ("del", "set", "cp")):
            no, r = refused(lambda: stream_call(m, full, op))
            require(no, "after %s, %s is not refused but gives %s", ops[:i], op, r)
        else:
            streams = streams or op != "cp"
            a = result(stream_call(m, full, op))
            b = result(stream_call(m, plainly, op))
            require(a == b, "after %s, %s gives %s; without the refused calls %s",
                    ops[:i], op, a, b)
            trail.append(a)
        if streams:
            a, b = result(full.stream_array), result(plainly.stream_array)
            require(a == b, "after %s, the stream array is %s; without the refused "
                    "calls %s", ops[:i + 1], a, b)
        else:
            require(refused(lambda: full.stream_array)[0],
                    "after %s there is a stream array", ops[:i + 1])
    return trail


def run_c26_input(ctx, case):
    mname, z, what = case
    m = mesh(mname)
    z = floats(z)
    a = m.arr(z)
    keep = a.copy()
    if what == "minima":
        low = sum(v == min(z) for v in z)
        ctx.op(2)
        no, r = refused(lambda: FlowDirections(m.grid(), a))
        require(no == (low > 1), "%s cells have the lowest elevation, refused: %s", low, no)
        ok = not refused(lambda: FlowDirections(m.grid(), a, check_elevations=False))[0]
        require(ok, "refused without check_elevations")
    else:
        a.ravel()[what] = keep.ravel()[what] = np.nan
        ctx.op(3)
        for bad in ("average", "mea", ""):
            no, r = refused(lambda: fill_nan_values(m.grid(), a, method=bad))
            require(no, "method %r gives %s", bad, r)
    require(np.array_equal(a, keep, equal_nan=True), "the DEM was modified")
    return what == "minima" and low > 1, len(set(z))


def run_c26_size(ctx, case):
    """arrays and points of every other size"""
    mname, z, which, before, size = case
    m = mesh(mname)

    def start():
        ctx.op(3)
        g = m.grid()
        fa = FlowDirections(g, m.arr(floats(z)), check_elevations=False)
        fa.flow_directions()
        fa.flow_accumulation(as_cells=True)
        b = BUILDERS[which](g, fa)
        for op in before:
            stream_call(m, b, op)
        return fa, b

    (fa, full), (_, plainly) = start(), start()
    bad = []
    if size != m.n:
        for dtype in (int, float, bool):
            a = np.ones(size, dtype=dtype)
            bad.append((f"streams of size {size}", lambda a=a: full.set_stream_array(a)))
            bad.append((f"thresholds of size {size}", lambda a=a: full.delineate_streams(a)))
        bad.append((f"thresholds of shape (1, {size})",
                    lambda: full.delineate_streams(np.full((1, size), 2.0))))
        bad.append((f"streams of shape ({size}, 1)",
                    lambda: full.set_stream_array(np.ones((size, 1), dtype=int))))
    if size != 2 and size < 6:
        ok = inside_point(m, 0)
        for p in (tuple(inside_point(m, 1) * 3)[:size], list(inside_point(m, 1) * 3)[:size],
                  np.array((inside_point(m, 1) * 3)[:size])):
            bad.append((f"a pour point {p}", lambda p=p: fa.get_watershed_boundary(p)))
            bad.append((f"an outlet {p}", lambda p=p: fa.get_subbasins([ok, p])))
            bad.append((f"a first outlet {p}", lambda p=p: fa.get_subbasins([p, ok])))
            bad.append((f"a control point {p}",
                        lambda p=p: full.threshold_from_control_points([ok, p])))
    for what, call in bad:
        ctx.op()
        no, r = refused(call)
        require(no, "after %s, %s is accepted and gives %s", before, what, r)
        a, b = refused(lambda: full.stream_array), refused(lambda: plainly.stream_array)
        require(result(a[1]) == result(b[1]), "after %s, %s changes the streams to %s",
                before, what, a[1])
    if size != m.n:
        # boundaries of another size need not be refused
        ctx.op()
        no, _ = refused(lambda: full.delineate_streams(1, basin_boundary=np.ones(size)))
        a, b = refused(lambda: full.stream_array), refused(lambda: plainly.stream_array)
        if not no:
            return which, size
        require(result(a[1]) == result(b[1]), "after %s, a refused boundary of size %s changes "
                "the streams to %s", before, size, a[1])
    last = ["del", "conn" if which == "6" else "connT"]
    for op in last:
        require(result(stream_call(m, full, op)) == result(stream_call(m, plainly, op)),
                "after arrays and points of size %s, %s differs", size, op)
    return which, size == m.n


def c26(tier):
    deep = tier == "thorough"
    nets = [("s2x3", [3, 2, 1, 4, 3, 0]), ("v2x3", [1, 2, 1, 2, 1, 0]),
            ("u2x3", [0, 2, 3, 1, 2, 1]), ("quad:v", [4, 3, 2, 5, 1, 0, 1]),
            ("s2x4", [2, 1, 2, 0, 2, 2, 1, 2])]

    def flows():
        ops = FLOW_OK + FLOW_BAD
        for name, z in nets if deep else nets[:4]:
            for d in range(1, 5 if deep else 4):
                for seq in itertools.product(ops, repeat=d):
                    if any(o in FLOW_BAD for o in seq) and seq[-1] != "terrain":
                        yield [name, z, list(seq)]

    def streams(which):
        ops = STREAM_OK[which] + STREAM_BAD[which]
        if which == "5":
            # the MODFLOW-2005 tables exist for structured grids
            tabs = [("s2x3", [3, 2, 1, 4, 3, 0]), ("s2x3w", [1, 2, 1, 2, 1, 0])]
        else:
            tabs = nets[:3]
        for name, z in tabs:
            for d in range(1, 5 if deep else 4):
                for seq in itertools.product(ops, repeat=d):
                    yield [name, z, which, list(seq)]

    def sizes():
        for name, z in nets + [("s1x3", [2, 1, 0]), ("s3x1", [0, 1, 2]), ("hex:u", [3, 2, 1, 3,
                                                                               1, 0, 2])]:
            n = mesh(name).n
            for which in "65p":
                for before in ([], ["del"], ["set", "conn" if which == "6" else "connF"]):
                    for size in range(2 * n + 2):
                        yield [name, z, which, before, size]

    def inputs():
        for name in ("s2x3", "v2x3", "u2x3"):
            for z in gen.dems(6, (0, 1, 2)):
                # lowest elevations that differ only in the last digits are no ties
                yield [name, [v * 1e-9 for v in z], "minima"]
                yield [name, z, "minima"]
                yield [name, z, int(sum(z)) % 6]

    return [
        Space("flow", flows, run_c26_flow, "all histories of up to three (thorough: four) "
              "calls on FlowDirections that contain refused calls"),
        Space("mf6", lambda: streams("6"), run_c26_stream,
              "all histories of up to three (thorough: four) calls on Sfr6"),
        Space("mf2005", lambda: streams("5"), run_c26_stream, "the same on Sfr2005"),
        Space("prms", lambda: streams("p"), run_c26_stream, "the same on PrmsStreams"),
        Space("sizes", sizes, run_c26_size, "arrays of every size up to twice the grid, points "
              "of every length"),
        Space("inputs", inputs, run_c26_input,
              "every three level 2x3 DEM: tied minima, unknown methods"),
    ]


# ------------------------------------------------------------------------- C27
MANY = ("lists", "array", "tuple", "flopy", "collection", "shapely", "multipoint",
        "shapelycoll", "path", "Path", "reader", "shapes", "listshapes")
ONE = ("list", "array", "flopy", "shapely", "shape")


def shapefile_of(pts, d):
    import shapefile
    path = os.path.join(d, "points.shp")
    with shapefile.Writer(path, shapeType=shapefile.POINT) as w:
        w.field("id", "N")
        for i, p in enumerate(pts):
            w.point(*p)
            w.record(i)
    return path


def as_points(pts, form, d):
    import shapely.geometry as sg
    from flopy.utils.geometry import Collection, Point
    if form == "lists":
        return [list(p) for p in pts]
    if form == "array":
        return np.array(pts)
    if form == "tuple":
        return tuple(tuple(p) for p in pts)
    if form == "flopy":
        return [Point(*p) for p in pts]
    if form == "collection":
        return Collection([Point(*p) for p in pts])
    if form == "shapely":
        return [sg.Point(*p) for p in pts]
    if form == "multipoint":
        return sg.MultiPoint(pts)
    if form == "shapelycoll":
        return sg.GeometryCollection([sg.Point(*p) for p in pts])
    import shapefile
    path = shapefile_of(pts, d)
    if form == "path":
        return path
    if form == "Path":
        return pathlib.Path(path)
    r = shapefile.Reader(path)
    if form == "reader":
        return r
    shapes = r.shapes()
    return shapes if form == "shapes" else list(shapes)


def run_c27(ctx, case):
    mname, z, cells, how, form = case
    m = mesh(mname)
    z = floats(z)
    g = m.grid()
    ctx.op(7)
    fa = FlowDirections(g, m.arr(z), check_elevations=False)
    fa.flow_directions()
    fa.flow_accumulation(as_cells=True)
    b = Sfr6(g, fa)
    pts = [inside_point(m, c, how) for c in cells]
    # the centers of the same cells
    mid = [inside_point(m, c) for c in cells]
    want_s = np.ravel(fa.get_subbasins(mid)).tolist()
    want_t = np.ravel(b.threshold_from_control_points(mid, 3)).tolist()
    d = tempfile.mkdtemp(prefix="verif-c27-")
    try:
        for fn, want in ((fa.get_subbasins, want_s),
                         (lambda p: b.threshold_from_control_points(p, 3), want_t)):
            given = as_points(pts, form, d)
            got = fn(given)
            require(np.shape(got) == m.shape, "shape %s", np.shape(got))
            got = np.ravel(got).tolist()
            require(got == want, "points as %s give %s, the centers of their cells as "
                    "tuples %s", form, got, want)
            if form in ("lists", "array", "tuple"):
                require(np.array_equal(np.array(given), np.array(pts)),
                        "the points were modified")
        want = np.ravel(fa.get_watershed_boundary(mid[0])).tolist()
        one = ONE[MANY.index(form) % len(ONE)]
        p = pts[0]
        if one == "list":
            p = list(p)
        elif one == "array":
            p = np.array(p)
        else:
            p = as_points([p], {"shape": "listshapes"}.get(one, one), d)[0]
        got = np.ravel(fa.get_watershed_boundary(p)).tolist()
        require(got == want, "the pour point as %s gives %s, the center of its cell "
                "as a tuple %s", one, got, want)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return want_s, want_t


def c27(tier):
    deep = tier == "thorough"
    tables = {"s2x3": [3, 2, 1, 4, 3, 0], "v2x3": [1, 2, 1, 2, 1, 0],
              "u2x3r": [0, 2, 3, 1, 2, 1], "quad:v": [4, 3, 2, 5, 1, 0, 1],
              "hex:u": [3, 2, 4, 1, 0, 2, 3], "s3x3o": [4, 3, 2, 4, 2, 1, 5, 2, 0],
              "s2x3mr": [1, 2, 1, 2, 1, 0], "v2x3m": [1, 2, 2, 2, 0, 1], "quad:um": [4, 3, 2, 5, 1, 0, 1]}

    def sets():
        for name, z in tables.items():
            n = mesh(name).n
            for k in (1, 2, 3) if deep else (1, 2):
                for i, cells in enumerate(itertools.permutations(range(n), k)):
                    for form in MANY:
                        yield [name, z, list(cells), i % 7, form]

    def dems():
        seq = unique_low(6, (0, 1, 2))
        for i, z in enumerate(seq):
            if deep or i % 2 == 0:
                for name in ("s2x3w", "u2x3", "v2x3mr"):
                    yield [name, z, [5, 0, 3][:1 + i % 3], i % 7, MANY[i % len(MANY)]]

    return [
        Space("sets", sets, run_c27, "all ordered sets of one or two (thorough: three) points x 13 "
              "forms x eight grids"),
        Space("dems", dems, run_c27, "three level 2x3 DEMs, forms in rotation"),
    ]


# ------------------------------------------------------------------------- C28
class World:
    """two DEMs on one grid object, or on two: two FlowDirections, four
    builders, conditioning on the second grid, and the first grid itself"""

    NEEDS = {"A": "F", "B": "F", "D": "F", "C": "G"}
    CLASS = {"A": Sfr6, "B": Sfr2005, "C": PrmsStreams, "D": PrmsStreams}

    def __init__(self, ctx, name, name2, z, z2, alone=None):
        # alone: the only object that exists (and what it is made from)
        ms = mesh(name), mesh(name2)
        g = ms[0].grid()
        gs = g, (g if name == name2 else ms[1].grid())
        self.m = {w: ms[w in "GCH"] for w in "ABCDFGHQ"}
        self.g = {w: gs[w in "GCH"] for w in "ABCDFGHQ"}
        self.z2 = z2
        self.fa, self.b = {}, {}
        self.given = []
        for who, v in (("F", z), ("G", z2)):
            if alone in (None, who) or self.NEEDS.get(alone) == who:
                ctx.op(3)
                fa = FlowDirections(self.g[who], self.m[who].arr(v), check_elevations=False)
                fa.flow_directions()
                fa.flow_accumulation(as_cells=True)
                self.fa[who] = fa
        for who in "ABCD":
            if alone in (None, who):
                self.b[who] = self.CLASS[who](self.g[who], self.fa[self.NEEDS[who]])

    def do(self, who, op):
        raw = self.call(who, op)
        got = result(raw)
        self.given.append((who, op, raw, got))
        return got

    def call(self, who, op):
        m, g = self.m[who], self.g[who]
        if who in self.fa:
            return flow_call(m, self.fa[who], op)
        if who in self.b:
            return stream_call(m, self.b[who], op)
        if who == "Q":
            q = g.neighbors(method=op, reset=True)
            return [sorted(int(i) for i in q[c]) for c in range(m.n)]
        a = m.arr(self.z2)
        if op == "nan":
            a.ravel()[m.n // 2] = np.nan
            return fill_nan_values(g, a, method="max")
        if op == "mask":
            mask = np.zeros(m.shape, dtype=int)
            mask.ravel()[m.n - 1] = 1
            return fill_sinks(g, a, stream_mask=mask)
        return fill_sinks(g, a, method=op)


SCRIPTS = {
    "A": (("del", "conn", "pk"), ("set", "pk", "cd"), ("cp", "del", "vec")),
    "B": (("del", "connT", "rd"), ("set", "bldK", "bld"), ("set", "connF", "bld")),
    "C": (("del", "cas", "bld"), ("set", "connF", "casM"), ("cp", "set", "vec")),
    "D": (("del", "casB", "casM"), ("set", "casM", "vec"), ("set", "connT", "casB")),
    "F": (("area", "terrain", "subs"), ("wshed", "cells", "terrain")),
    "G": (("area", "terrain", "subs"), ("wshed", "cells", "terrain"), ("term", "area", "subs"),
          ("dir", "wshed", "cells")),
    "H": (("priority", "mask", "nan"), ("drain", "nan", "priority")),
    "Q": (("rook", "queen", "rook"), ("queen", "rook", "queen")),
}
_ALONE = {}


def alone_c28(ctx, name, name2, z, z2, who, ops):
    w = World(ctx, name, name2, z, z2, alone=who)
    ctx.op(len(ops))
    return [w.do(who, op) for op in ops]


def run_c28(ctx, case):
    name, name2, z, z2, scripts, order = case
    z, z2 = floats(z), floats(z2)
    for who, ops in scripts:
        key = (name, name2, tuple(z), tuple(z2), who, tuple(ops))
        if key not in _ALONE:
            _ALONE[key] = core.pristine(ctx, alone_c28, name, name2, z, z2, who, list(ops))
    alone = {who: _ALONE[(name, name2, tuple(z), tuple(z2), who, tuple(ops))]
             for who, ops in scripts}
    w = World(ctx, name, name2, z, z2)
    at = {who: 0 for who, _ in scripts}
    ops = dict(scripts)
    done, trail = [], []
    for who in order:
        i = at[who]
        op = ops[who][i]
        at[who] += 1
        ctx.op()
        got, want = w.do(who, op), alone[who][i]
        trail.append(want)
        require(got == want, "after %s, %s of %s gives %s; alone it gives %s",
                done, op, who, got, want)
        done.append((who, op))
    for who, op, raw, got in w.given:
        require(result(raw) == got, "the result of %s of %s became %s during %s; it was %s", op,
                who, result(raw), done, got)
    return trail


def interleavings(a, b, na, nb):
    for pos in itertools.combinations(range(na + nb), na):
        yield [a if i in pos else b for i in range(na + nb)]


def c28(tier):
    deep = tier == "thorough"
    z6, y6 = [3, 2, 1, 4, 3, 0], [0, 1, 1, 2, 2, 1]
    z9, y9 = [4, 3, 2, 4, 2, 1, 5, 2, 0], [1, 1, 0, 2, 1, 1, 2, 2, 1]
    z7, y7 = [4, 3, 2, 5, 1, 0, 1], [0, 1, 2, 1, 2, 2, 3]
    z8, y8 = [2, 1, 2, 0, 2, 2, 1, 2], [3, 3, 2, 3, 3, 2, 1, 0]
    shared = [("s2x3", "s2x3", z6, y6), ("s3x3r", "s3x3r", z9, y9), ("v3x3", "v3x3", z9, y9),
              ("quad:u", "quad:u", z7, y7), ("u2x4", "u2x4", z8, y8)]
    # grids that only look the same: shape, number of cells, extent
    twins = [("s2x3", "s2x3w", z6, y6), ("quad:u", "hex:u", z7, y7), ("u2x4", "s2x4", z8, y8),
             ("s2x4", "v2x4", z8, y8), ("quad:u", "quad:up", z7, y7), ("hex:v", "hex:vp", z7, y7)]

    def scripts(name):
        if name[0] == "s":
            return SCRIPTS
        # the MODFLOW-2005 tables exist for structured grids
        return dict(SCRIPTS, B=(("del", "connT", "ir"), ("set", "ir", "connF"),
                                ("cp", "set", "vec")))

    def pairs(worlds):
        for name, name2, z, z2 in worlds:
            S = scripts(name)
            for p, q in itertools.combinations("ABCDFGHQ", 2):
                qs = S[q]
                if (p, q) == ("C", "G"):
                    # the builder of G: only calls that keep its directions
                    qs = qs[:2]
                for sp, sq in itertools.product(S[p], qs):
                    for o in interleavings(p, q, 3, 3):
                        yield [name, name2, z, z2, [[p, sp], [q, sq]], o]

    def triples():
        for name, name2, z, z2 in shared + twins if deep else shared[:2] + twins[:1]:
            S = scripts(name)
            for who in itertools.combinations("ABCDFGHQ", 3):
                for k in range(2 if deep else 1):
                    sc = [[p, S[p][(k + 1) % 2][:2 + (deep and p == who[0])]] for p in who]
                    bag = [p for p, s in sc for _ in s]
                    for o in sorted(set(itertools.permutations(bag))):
                        yield [name, name2, z, z2, sc, list(o)]

    return [
        Space("pairs", lambda: pairs(shared), run_c28, "all interleavings of two scripts of three "
              "calls on two of eight objects that share a grid and flow directions", pristine=True),
        Space("twins", lambda: pairs(twins), run_c28, "the same on two grids that look alike", pristine=True),
        Space("triples", triples, run_c28, "all interleavings of three scripts of two calls", pristine=True),
    ]
