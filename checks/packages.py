"""the tables in the MODFLOW packages of flopy: C29"""
import itertools
import os
import shutil
import tempfile

import flopy
import numpy as np

from mc import gen, model
from mc.core import Space, require
from mc.grids import mesh

from checks.stream import (ARRAYS, GROUPS, TERMS, Net, fam_binary, fam_large, fam_masks,
                           fam_orders, fam_pits, fam_sparse, fam_variants,
                           stream_array, with_options)

_MODELS = {}


def mf6_model(name):
    """one MODFLOW 6 model per mesh and process; packages come and go"""
    if name in _MODELS:
        return _MODELS[name]
    m = mesh(name)
    g = m.grid()
    sim = flopy.mf6.MFSimulation(sim_ws=tempfile.gettempdir())
    flopy.mf6.ModflowTdis(sim)
    gwf = flopy.mf6.ModflowGwf(sim, modelname="gwf")
    nlay = g.nlay or 1
    if m.kind == "s":
        nrow, ncol = m.shape
        flopy.mf6.ModflowGwfdis(gwf, nlay=nlay, nrow=nrow, ncol=ncol)
    elif m.kind == "v":
        # the cells themselves do not matter to the package
        flopy.mf6.ModflowGwfdisv(
            gwf, nlay=nlay, ncpl=m.n, nvert=3,
            vertices=[[i, float(i), float(i * i)] for i in range(3)],
            cell2d=[[i, 0.0, 0.0, 3, 0, 1, 2] for i in range(m.n)])
    else:
        flopy.mf6.ModflowGwfdisu(
            gwf, nodes=m.n, nja=m.n, iac=[1] * m.n, ja=list(range(m.n)),
            ihc=[1] * m.n, cl12=[1.0] * m.n, hwva=[1.0] * m.n)
    _MODELS[name] = gwf
    return gwf


def block(text, name):
    """the lines of one block of a MODFLOW 6 package file"""
    out, inside = [], False
    for line in text.splitlines():
        words = line.split()
        low = [w.lower() for w in words]
        if low[:2] == ["begin", name]:
            inside = True
        elif low[:2] == ["end", name]:
            return out
        elif inside and words:
            out.append(words)
    require(False, "the package file has no block %s", name)


def run_mf6(ctx, case):
    mname, z, cells, how, terms, group, entry = case
    net = Net(ctx, mname, z, terms)
    m, f, z = net.m, net.f, net.z
    cells = net.pick(cells)
    # reaches without an elevation cannot be written
    cells = [c for c in cells if z[c] == z[c]]
    among = set(cells)
    if not cells or not net.acyclic(cells):
        # MODFLOW 6 has no way to write that the first reach is downstream
        return None
    b = net.builder("6", cells)
    a = stream_array(m, cells, how)
    ctx.op(4)
    if entry == "conn":
        graph = b.get_stream_connectivity(a)
        cd, pk = b.connectiondata(graph), b.packagedata()
    elif entry == "arg":
        pk = b.packagedata(a)
        cd = b.connectiondata()
    else:
        b.set_stream_array(a)
        cd, pk = b.connectiondata(), b.packagedata()
    gwf = mf6_model(mname)
    folder = tempfile.mkdtemp(prefix="c29_")
    try:
        sfr = flopy.mf6.ModflowGwfsfr(gwf, nreaches=len(pk), packagedata=pk,
                                      connectiondata=cd, filename="a.sfr")
        try:
            kept = sfr.packagedata.get_data()
            require([int(v) for v in kept["ifno"]] == list(range(len(cells))),
                    "flopy keeps the reaches %s", [int(v) for v in kept["ifno"]])
            gwf.simulation.set_sim_path(folder)
            sfr.write()
            text = open(os.path.join(folder, "a.sfr")).read()
        finally:
            gwf.remove_package(sfr)
    finally:
        shutil.rmtree(folder)
    dims = {w[0].lower(): int(w[1]) for w in block(text, "dimensions")}
    require(dims == {"nreaches": len(cells)}, "dimensions %s of %s reaches", dims, len(cells))
    width = {"s": 3, "v": 2, "u": 1}[m.kind]
    at, ncon = {}, {}
    for words in block(text, "packagedata"):
        r = int(words[0])
        require(r not in at, "reach %s is written twice", r)
        cid = [int(w) - 1 for w in words[1:1 + width]]
        vals = [float(w) for w in words[1 + width:]]
        require(len(vals) == 10, "reach %s has the values %s", r, vals)
        require(width == 1 or cid[0] == 0, "reach %s is in layer %s", r, cid[0] + 1)
        c = cid[1] * m.ncol + cid[2] if width == 3 else cid[-1]
        require(width != 3 or 0 <= cid[2] < m.ncol, "reach %s is in column %s", r, cid[-1])
        at[r], ncon[r] = c, int(vals[7])
        length, top = vals[0], vals[3]
        require(abs(top - z[c]) <= 1e-6 * max(1, abs(z[c])) or (z[c] != z[c] and top != top),
                "reach %s in cell %s is at %s, the cell is at %s", r, c, top, z[c])
        d = f[c]
        if d >= 0 and d in among and d != c:
            want = 1.5 * m.dist(c, d)
            require(abs(length - want) <= 1e-6 * want, "reach %s has length %s, expected %s",
                    r, length, want)
        require(length > 0, "reach %s has length %s", r, length)
    require(sorted(at) == list(range(1, len(cells) + 1)), "reach numbers %s", sorted(at))
    require(sorted(at.values()) == sorted(cells), "reaches in the cells %s, expected %s",
            sorted(at.values()), sorted(cells))
    number = {c: r for r, c in at.items()}
    seen = {}
    for words in block(text, "connectiondata"):
        seen[int(words[0])] = [int(w) for w in words[1:]]
    require(sorted(seen) == sorted(at), "connections of the reaches %s", sorted(seen))
    for r, c in at.items():
        d = f[c]
        want = {number[u] for u in m.adj[c] if u in among and f[u] == c and u != c}
        if d >= 0 and d in among and d != c:
            want.add(-number[d])
        require(sorted(seen[r]) == sorted(want), "reach %s in cell %s is written with the "
                "connections %s, expected %s", r, c, seen[r], sorted(want))
        require(ncon[r] == len(want), "reach %s is written with ncon %s, it has %s "
                "connections", r, ncon[r], len(want))
    return sorted((r, tuple(v)) for r, v in seen.items()), [at[r] for r in sorted(at)]


def run_2005(ctx, case):
    mname, z, cells, how, terms, group, entry = case
    net = Net(ctx, mname, z, terms)
    m, f, z = net.m, net.f, net.z
    cells = net.pick(cells)
    cells = [c for c in cells if z[c] == z[c]]
    among = set(cells)
    if len(cells) < 2 or not net.acyclic(cells):
        # flopy cannot hold a single reach
        return None
    b = net.builder("5", cells)
    a = stream_array(m, cells, how)
    ctx.op(4)
    if entry == "conn":
        b.get_stream_connectivity(a, group_segments=group)
        rd, sd = b.reach_data(), b.segment_data()
    elif entry == "arg":
        sd = b.segment_data(a, group_segments=group)
        rd = b.reach_data(a)
    else:
        b.set_stream_array(a)
        o = b.get_pygsflow_builder_object(group_segments=group)
        rd, sd = o.reach_data, o.segment_data
    nrow, ncol = m.shape
    folder = tempfile.mkdtemp(prefix="c29_")
    try:
        def new(name):
            ml = flopy.modflow.Modflow(name, model_ws=folder)
            flopy.modflow.ModflowDis(
                ml, nrow=nrow, ncol=ncol, delr=m.struct["delr"], delc=m.struct["delc"],
                top=np.nan_to_num(m.arr(z)) + 1, botm=-1e5)
            return ml
        sfr = flopy.modflow.ModflowSfr2(
            new("a"), nstrm=-len(rd), nss=len(sd), reach_data=rd, segment_data={0: sd},
            isfropt=1)
        # flopy leaves them out when there is a single segment
        sfr.set_outreaches()
        out = {int(r["reachID"]): int(r["outreach"]) for r in sfr.reach_data}
        where = {int(r["reachID"]): (int(r["i"]) * ncol + int(r["j"]))
                 for r in sfr.reach_data}
        sfr.write_file()
        back = flopy.modflow.ModflowSfr2.load(os.path.join(folder, "a.sfr"), new("b"))
        back.set_outreaches()
    finally:
        shutil.rmtree(folder)
    require(sorted(where.values()) == sorted(cells), "reaches in the cells %s, expected %s",
            sorted(where.values()), sorted(cells))
    require(len(back.reach_data) == len(cells), "%s reaches are read back, there are %s",
            len(back.reach_data), len(cells))
    first = {}
    for r in back.reach_data:
        if int(r["ireach"]) == 1:
            require(int(r["iseg"]) not in first, "segment %s begins twice", r["iseg"])
            first[int(r["iseg"])] = int(r["i"]) * ncol + int(r["j"])
    again = {int(r["reachID"]): (int(r["i"]) * ncol + int(r["j"])) for r in back.reach_data}
    over = {int(r["reachID"]): int(r["outreach"]) for r in back.reach_data}
    segs = {(int(r["i"]) * ncol + int(r["j"])): int(r["iseg"]) for r in back.reach_data}
    require({int(r["k"]) for r in back.reach_data} == {0}, "reaches in layers %s",
            {int(r["k"]) for r in back.reach_data})
    for ids, down in ((where, out), (again, over)):
        for rid, c in ids.items():
            d = f[c]
            to = ids.get(down[rid])
            if d >= 0 and d in among and d != c:
                require(to == d, "flopy routes the reach in cell %s to cell %s, it flows to "
                        "cell %s", c, to, d)
            else:
                # an outlet segment points to nothing or to itself
                require(to is None or to == first[segs[c]], "flopy routes the outlet reach "
                        "in cell %s to cell %s", c, to)
    for r in back.reach_data:
        c = int(r["i"]) * ncol + int(r["j"])
        require(abs(float(r["strtop"]) - z[c]) <= 1e-5 * max(1, abs(z[c])) or z[c] != z[c],
                "the reach in cell %s is read back at %s, expected %s", c, r["strtop"], z[c])
        d = f[c]
        if d >= 0 and d in among and d != c:
            want = 1.5 * m.dist(c, d)
            require(abs(float(r["rchlen"]) - want) <= 1e-5 * want, "the reach in cell %s is "
                    "read back with length %s, expected %s", c, r["rchlen"], want)
    links = {int(s): int(t) for s, t in zip(back.segment_data[0]["nseg"],
                                            back.segment_data[0]["outseg"])}
    require(links == {int(s): int(t) for s, t in zip(sd["nseg"], sd["outseg"])},
            "the segments are read back as %s", links)
    return sorted(links.items()), sorted(where.items())


def c29(tier):
    deep = tier == "thorough"
    entries = ("conn", "arg", "set", "arg", "conn")

    def wrap(g, every=1):
        return lambda: gen.every(with_options(g(), ARRAYS, TERMS, GROUPS, entries), every)

    few = 1 if deep else 4
    return [
        Space("mf6grids", wrap(lambda: itertools.chain(
            fam_masks("s2x3w", (0, 1) if not deep else (0, 1, 2)),
            fam_masks("v2x3", (0, 1), few), fam_masks("u2x3w", (0, 1), few))), run_mf6,
            "2x3 grids of three kinds x every stream mask, MODFLOW 6"),
        Space("mf63x3", wrap(lambda: itertools.chain(
            fam_binary("s3x3", (0, 4), few), fam_sparse("v3x3w", (0, 5), few),
            fam_binary("u3x3", (0, 8), few))), run_mf6, "3x3 grids, MODFLOW 6"),
        Space("mf6meshes", wrap(lambda: itertools.chain(
            *(fam_binary(n, range(mesh(n).n), few)
              for n in ("hex:v", "quad:u", "ring:v", "tri:u")))),
            run_mf6, "irregular meshes, MODFLOW 6"),
        Space("mf6variants", wrap(lambda: fam_variants(
            4 * few, ("quad:vl", "s2x3l", "v2x3l", "hang:uc", "s2x3m", "tri:vlc", "quad:ud", "s2x3e",
                      "tri:up"))),
            run_mf6, "several layers, closed rings, map coordinates, relief, MODFLOW 6"),
        Space("variants", wrap(lambda: fam_variants(8 * few, ("s2x3l", "s2x3m", "s2x3dw", "s2x3e"))),
              run_2005, "several layers, map coordinates, relief, MODFLOW-2005"),
        Space("mf6pits", wrap(lambda: fam_pits("s3x3", (0, 1, 2), 3 * few)), run_mf6,
              "pits and tied minima, MODFLOW 6"),
        Space("mf6large", wrap(lambda: fam_large(range(1 if not deep else 8))), run_mf6,
              "fixed terrains of several hundred cells, MODFLOW 6", chunk=2),
        Space("2x3", wrap(lambda: fam_masks("s2x3w", (0, 1, 2), 4 * few)), run_2005,
              "2x3 grid, every stream mask, MODFLOW-2005"),
        Space("3x3", wrap(lambda: itertools.chain(
            fam_binary("s3x3", (0, 4, 5), few), fam_sparse("s3x3w", (0, 4, 5), few))),
            run_2005, "3x3 grids, MODFLOW-2005"),
        Space("orders", wrap(lambda: fam_orders("s2x3", 1)), run_2005,
              "every order of six elevations, MODFLOW-2005"),
        Space("pits", wrap(lambda: fam_pits("s3x3", (0, 1, 2), 3 * few)), run_2005,
              "pits and tied minima, MODFLOW-2005"),
        Space("large", wrap(lambda: fam_large(
            range(1 if not deep else 8), ("rough", "plane", "steps"),
            ("s18x20", "s25x15w", "s9x40r", "s20x20l"))), run_2005,
            "fixed terrains of several hundred cells, MODFLOW-2005", chunk=2),
    ]
