"""Grid zoo: pure data meshes, and the flopy grids built from them.

The reference models only use the pure data (vertices, cells, centers); the
implementation only gets the flopy grid.
"""
import functools
import math

import numpy as np
from flopy.discretization import StructuredGrid, UnstructuredGrid, VertexGrid


class Mesh:
    """verts: [(x, y)], cells: [[vertex index]], kind: 's', 'v' or 'u'"""

    nlay = 1
    closed = False
    asked = False
    # relative error of areas; areas in map coordinates lose digits to cancellation
    area_tol = 1e-9

    def __init__(self, name, kind, verts, cells, centers, struct=None):
        self.name, self.kind = name, kind
        self.verts = [(float(x), float(y)) for x, y in verts]
        self.cells = [list(c) for c in cells]
        self.xc = [float(c[0]) for c in centers]
        self.yc = [float(c[1]) for c in centers]
        self.struct = struct
        self.n = len(self.cells)
        users = {}
        for c, vs in enumerate(self.cells):
            for v in vs:
                users.setdefault(v, []).append(c)
        self.adj = [
            sorted({o for v in vs for o in users[v]} - {c})
            for c, vs in enumerate(self.cells)
        ]
        edges = {}
        for c, vs in enumerate(self.cells):
            for i in range(len(vs)):
                edges.setdefault(frozenset((vs[i - 1], vs[i])), []).append(c)
        self.boundary = sorted({u[0] for u in edges.values() if len(u) == 1})
        if max(abs(v) for p in self.verts for v in p) > 90:
            # digits are lost to cancellation
            self.area_tol = 1e-6
        self.area = [self._shoelace(vs) for vs in self.cells]
        if struct:
            self.shape = (struct["nrow"], struct["ncol"])
        else:
            self.shape = (self.n,)

    def _shoelace(self, vs):
        p = [self.verts[v] for v in vs]
        # relative to the first vertex: map coordinates would lose digits
        x, y = p[0]
        p = [(a - x, b - y) for a, b in p]
        return abs(sum(p[i - 1][0] * p[i][1] - p[i][0] * p[i - 1][1]
                       for i in range(len(p)))) / 2.0

    def same_area(self, a, b):
        return abs(a - b) <= self.area_tol * abs(b)

    def dist(self, a, b):
        return math.hypot(self.xc[a] - self.xc[b], self.yc[a] - self.yc[b])

    def grid(self):
        """a fresh flopy grid"""
        g = self._grid()
        if self.asked:
            g.neighbors(method="rook", reset=True)
        return g

    def _grid(self):
        n, nlay = self.n, self.nlay
        botm = np.zeros((nlay,) + self.shape)
        idomain = np.ones((nlay,) + self.shape, int)
        for k in range(nlay):
            botm[k] = -k
            # deeper layers have inactive cells
            idomain[k].ravel()[:k] = 0
        if self.kind == "s":
            s = self.struct
            return StructuredGrid(
                delc=np.array(s["delc"], float), delr=np.array(s["delr"], float),
                top=np.ones(self.shape), botm=botm, idomain=idomain, nlay=nlay,
                xoff=s["xoff"], yoff=s["yoff"], angrot=s["angrot"])
        verts = [[i, x, y] for i, (x, y) in enumerate(self.verts)]
        rings = [list(vs) + (list(vs[:1]) if self.closed else []) for vs in self.cells]
        if self.kind == "v":
            cell2d = [[i, self.xc[i], self.yc[i], len(vs)] + vs
                      for i, vs in enumerate(rings)]
            return VertexGrid(
                vertices=verts, cell2d=cell2d, top=np.ones(n),
                botm=botm, idomain=idomain, nlay=nlay, ncpl=n)
        return UnstructuredGrid(
            vertices=verts, iverts=rings,
            xcenters=np.array(self.xc), ycenters=np.array(self.yc),
            top=np.ones(n), botm=np.zeros(n), idomain=np.ones(n, int),
            ncpl=np.array([n]))

    def arr(self, values, dtype=float):
        return np.array(values, dtype=dtype).reshape(self.shape)


def structured(name, delr, delc, xoff=0.0, yoff=0.0, angrot=0.0, kind="s"):
    nrow, ncol = len(delc), len(delr)
    xs = [0.0]
    for d in delr:
        xs.append(xs[-1] + d)
    ys = [float(sum(delc))]
    for d in delc:
        ys.append(ys[-1] - d)
    a = math.radians(angrot)

    def tr(x, y):
        return (xoff + x * math.cos(a) - y * math.sin(a),
                yoff + x * math.sin(a) + y * math.cos(a))

    if angrot == 0:
        def tr(x, y):  # noqa: F811
            return xoff + x, yoff + y

    verts = [tr(x, y) for y in ys for x in xs]
    w = ncol + 1
    cells, centers = [], []
    for i in range(nrow):
        for j in range(ncol):
            cells.append([i * w + j, i * w + j + 1,
                          (i + 1) * w + j + 1, (i + 1) * w + j])
            centers.append(tr((xs[j] + xs[j + 1]) / 2, (ys[i] + ys[i + 1]) / 2))
    st = dict(nrow=nrow, ncol=ncol, delr=list(delr), delc=list(delc),
              xoff=xoff, yoff=yoff, angrot=angrot) if kind == "s" else None
    m = Mesh(name, kind, verts, cells, centers, st)
    m.nrow, m.ncol = nrow, ncol
    return m


def _poly(name, kind, polys):
    verts, index, cells, centers = [], {}, [], []
    for p in polys:
        c = []
        for x, y in p:
            k = (round(x, 6), round(y, 6))
            if k not in index:
                index[k] = len(verts)
                verts.append((x, y))
            c.append(index[k])
        cells.append(c)
        centers.append(_centroid(p))
    return Mesh(name, kind, verts, cells, centers)


def _centroid(p):
    """center of area; not the mean of the vertices"""
    if len(p) == 3:
        return sum(x for x, _ in p) / 3, sum(y for _, y in p) / 3
    x0, y0 = p[0]
    a = sx = sy = 0.0
    for i in range(len(p)):
        (x1, y1), (x2, y2) = p[i - 1], p[i]
        x1, y1, x2, y2 = x1 - x0, y1 - y0, x2 - x0, y2 - y0
        d = x1 * y2 - x2 * y1
        a += d
        sx += (x1 + x2) * d
        sy += (y1 + y2) * d
    return x0 + sx / (3 * a), y0 + sy / (3 * a)


def _sq(x, y, s=1.0):
    return [(x, y + s), (x + s, y + s), (x + s, y), (x, y)]


def _tri(nx, ny):
    out = []
    for j in range(ny):
        for i in range(nx):
            a, b = (i, j), (i + 1.0, j)
            c, d = (i + 1.0, j + 1.0), (i, j + 1.0)
            out += [[a, d, c], [a, c, b]]
    return [[(float(x), float(y)) for x, y in p] for p in out]


def _quad():
    """2x2 of size 2 cells, lower right refined; hanging nodes are listed"""
    return [
        [(0., 4.), (2., 4.), (2., 2.), (0., 2.)],
        [(2., 4.), (4., 4.), (4., 2.), (3., 2.), (2., 2.)],
        [(0., 2.), (2., 2.), (2., 1.), (2., 0.), (0., 0.)],
        _sq(2., 1.), _sq(3., 1.), _sq(2., 0.), _sq(3., 0.),
    ]


def _quad3():
    """3x3 of size 2, the middle cell refined to 2x2"""
    out = []
    for r in (2, 1, 0):
        for c in (0, 1, 2):
            x, y = 2.0 * c, 2.0 * r
            if (r, c) == (1, 1):
                out += [_sq(x, y + 1), _sq(x + 1, y + 1), _sq(x, y), _sq(x + 1, y)]
                continue
            p = [(x, y + 2)]
            if (r, c) == (0, 1):
                p.append((x + 1, y + 2))
            p.append((x + 2, y + 2))
            if (r, c) == (1, 0):
                p.append((x + 2, y + 1))
            p.append((x + 2, y))
            if (r, c) == (2, 1):
                p.append((x + 1, y))
            p.append((x, y))
            if (r, c) == (1, 2):
                p.append((x, y + 1))
            out.append(p)
    return out


def _hex(rows):
    out = []
    h = math.sqrt(3) / 2
    for r, n in enumerate(rows):
        for c in range(n):
            cx = c * 2 * h + (r % 2) * h
            cy = -1.5 * r
            out.append([(cx + h * math.cos(0) * 0 + math.sin(math.radians(60 * k)),
                         cy + math.cos(math.radians(60 * k))) for k in range(6)])
    return out


def _hang():
    """two large cells share a side with two and three hanging nodes at uneven
    spacing: a side can have four vertices, and cells can share three"""
    return [
        [(0., 4.), (4., 4.), (4., 3.), (4., 2.5), (4., 2.), (0., 2.)],
        [(4., 4.), (6., 4.), (6., 2.), (4., 2.), (4., 2.5), (4., 3.)],
        [(0., 2.), (4., 2.), (4., 1.5), (4., 0.), (0., 0.)],
        [(4., 2.), (6., 2.), (6., 1.5), (4., 1.5)],
        [(4., 1.5), (6., 1.5), (6., 0.), (4., 0.)],
        [(6., 4.), (8., 3.), (8., 2.), (6., 2.)],
        [(6., 2.), (8., 2.), (7., 1.), (6., 0.), (6., 1.5)],
    ]


def _hub(k, rings):
    """a cell with k corners, in the middle of rings of k cells; the cells of
    the first ring have the first numbers"""
    def at(i, r):
        a = 2 * math.pi * (i % k) / k + 0.1
        return (1.4 * r * math.cos(a), r * math.sin(a))

    out = []
    for r in range(1, rings + 1):
        out += [[at(i, r), at(i + 1, r), at(i + 1, r + 1), at(i, r + 1)] for i in range(k)]
        if r == 1:
            out.append([at(i, 1) for i in range(k)])
    return out


MESHES = {
    "hub": lambda k: _poly("hub", k, _hub(20, 4)),
    # a cell that has no neighbors, between cells that do
    "isle": lambda k: _poly("isle", k, [_sq(0., 1.), _sq(1., 1.), _sq(5., 5.), _sq(0., 0.),
                                        _sq(1., 0.), _sq(2., 0.)]),
    "hang": lambda k: _poly("hang", k, _hang()),
    "trib": lambda k: _poly("trib", k, _tri(14, 12)),
    "hexb": lambda k: _poly("hexb", k, _hex([13, 14] * 7)),
    "tri": lambda k: _poly("tri", k, _tri(2, 2)),
    "tri3": lambda k: _poly("tri3", k, _tri(3, 2)),
    "quad": lambda k: _poly("quad", k, _quad()),
    "quad3": lambda k: _poly("quad3", k, _quad3()),
    "hex": lambda k: _poly("hex", k, _hex([2, 3, 2])),
    # eight cells around a hole: two boundaries
    "ring": lambda k: _poly("ring", k, [_sq(1. * c, 2. - r) for r in range(3)
                                        for c in range(3) if (r, c) != (1, 1)]),
    # two 2x2 blocks that only share one vertex
    "bow": lambda k: _poly("bow", k, [_sq(0., 3.), _sq(1., 3.), _sq(0., 2.),
                                      _sq(1., 2.), _sq(2., 1.), _sq(3., 1.),
                                      _sq(2., 0.), _sq(3., 0.)]),
    # L shaped domain, cells not in row order
    "ell": lambda k: _poly("ell", k, [_sq(0., 0.), _sq(2., 0.), _sq(1., 0.),
                                      _sq(0., 2.), _sq(0., 1.), _sq(1., 1.)]),
    # two islands that do not touch
    "gap": lambda k: _poly("gap", k, [_sq(0., 1.), _sq(1., 1.), _sq(0., 0.),
                                      _sq(4., 0.), _sq(5., 0.), _sq(5., 1.)]),
    # trapezoids of different width
    "strip": lambda k: _poly("strip", k, [
        [(0., 2.), (1., 2.5), (1., 0.), (0., 0.5)],
        [(1., 2.5), (3., 2.), (2.5, 0.), (1., 0.)],
        [(3., 2.), (4., 2.), (4.5, -.5), (2.5, 0.)],
        [(4., 2.), (6., 3.), (6., 0.), (4.5, -.5)],
        [(6., 3.), (7., 2.), (7., 1.), (6., 0.)]]),
}


UTM = (512345.678, 4312345.25)


@functools.lru_cache(maxsize=None)
def mesh(name):
    """s3x4 [suffix], v3x4, u3x4, or one of MESHES with :v / :u

    suffix of s/v/u grids: 'w' variable spacing, 'n' nearly equal spacing, 'o' offset origin,
    'r' rotated and offset, 'm' 100 m cells in map (UTM) coordinates, 'd' 0.01 degree
    cells, 'e' cells of 5000, 'l' three layers, 'k' a grid that holds its rook
    neighbors from an earlier question; :v and :u may be followed by 'c'
    (closed rings, each from another corner), 'q' (closed rings), 'f' (rings in the
    other direction), 'p' (cells numbered differently), 'm', 'd', 'e', 'l' and 'k'
    """
    if ":" in name:
        base, kind = name.split(":")
        m = MESHES[base](kind[0])
        if "m" in kind:
            def to_map(ps):
                return [(UTM[0] + 100.0 * x, UTM[1] + 100.0 * y) for x, y in ps]
            m = Mesh(name, kind[0], to_map(m.verts), m.cells, to_map(zip(m.xc, m.yc)))
        if "d" in kind:
            def to_deg(ps):
                return [(-119.5 + 0.01 * x, 39.2 + 0.01 * y) for x, y in ps]
            m = Mesh(name, kind[0], to_deg(m.verts), m.cells, to_deg(zip(m.xc, m.yc)))
        if "e" in kind:
            m = Mesh(name, kind[0], [(5000.0 * x, 5000.0 * y) for x, y in m.verts], m.cells,
                     [(5000.0 * x, 5000.0 * y) for x, y in zip(m.xc, m.yc)])
        # the first vertex closes the ring of each cell
        m.closed = "c" in kind or "q" in kind
        if "c" in kind:
            # and is another corner of each
            m.cells = [vs[i % len(vs):] + vs[:i % len(vs)] for i, vs in enumerate(m.cells)]
        if "f" in kind:
            # rings in the other direction, from another vertex
            m.cells = [vs[1::-1] + vs[:1:-1] for vs in m.cells]
        if "p" in kind:
            # the same cells in another order
            order = sorted(range(m.n), key=lambda i: (i * 5 + 3) % (m.n + (m.n % 5 == 0)))
            m, closed = Mesh(name, kind[0], m.verts, [m.cells[i] for i in order],
                             [(m.xc[i], m.yc[i]) for i in order]), m.closed
            m.closed = closed
        if "l" in kind:
            m.nlay = 3
        m.asked = "k" in kind
        m.name = name
        return m
    kind, rest = name[0], name[1:]
    suffix = ""
    while rest[-1].isalpha():
        suffix = rest[-1] + suffix
        rest = rest[:-1]
    nr, nc = (int(i) for i in rest.split("x"))
    delr, delc = [1.0] * nc, [1.0] * nr
    kw = {}
    if "w" in suffix:
        delr = [(1.0, 2.0, 0.5, 1.5)[i % 4] for i in range(nc)]
        delc = [(1.0, 0.5, 3.0)[i % 3] for i in range(nr)]
    if "n" in suffix:
        # spacings that single precision cannot tell apart
        delr = [1.0 + (0.0, 2e-8, 1e-8, 3e-8)[i % 4] for i in range(nc)]
        delc = [1.0 + (1e-8, 0.0, 2e-8)[i % 3] for i in range(nr)]
    if "h" in suffix:
        delr, delc = [100.0] * nc, [100.0] * nr
    if "e" in suffix:
        delr, delc = [5000.0 * v for v in delr], [5000.0 * v for v in delc]
    if "o" in suffix:
        kw.update(xoff=1000.0, yoff=-500.0)
    if "d" in suffix:
        delr, delc = [0.01 * v for v in delr], [0.01 * v for v in delc]
        kw.update(xoff=-119.5, yoff=39.2)
    if "m" in suffix:
        delr, delc = [100.0 * v for v in delr], [100.0 * v for v in delc]
        kw.update(xoff=UTM[0], yoff=UTM[1], angrot=12.5 if "r" in suffix else 0.0)
    elif "r" in suffix:
        kw.update(xoff=100.0, yoff=50.0, angrot=30.0)
    m = structured(name, delr, delc, kind=kind, **kw)
    if "l" in suffix:
        m.nlay = 3
    m.asked = "k" in suffix
    return m
