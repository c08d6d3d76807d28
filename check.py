#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough]  |  --replay FILE  |  --selftest"""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

WHERE = {
    "fill": ["C01", "C02", "C03", "C04"],
    "flow": ["C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C25"],
    "stream": ["C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22",
               "C23", "C24"],
    "calls": ["C26", "C27", "C28"],
    "packages": ["C29"],
}


def spaces_of(pid, tier):
    mod = next(m for m, ids in WHERE.items() if pid in ids)
    module = importlib.import_module("checks." + mod)
    return getattr(module, pid.lower())(tier)


def selftest():
    """the harness' pure data meshes describe the grids that flopy builds"""
    import numpy as np
    from mc import grids

    names = [f"{k}{rc}" for k in "svu" for rc in ("1x4", "2x3", "3x3", "4x4")]
    names += [f"s{rc}{x}" for rc in ("2x3", "3x3", "3x4") for x in
              ("w", "o", "r", "h", "wr", "m", "mr", "mw", "d", "dw")]
    names += ["s3x4l", "v3x4l", "hang:vc", "quad:uc", "quad:vp", "tri:up", "hex:vp", "s2x3n", "hex:vl", "quad:um", "hex:vm", "quad:vd", "hex:ud"]
    names += [f"{b}:{k}" for b in grids.MESHES for k in "vu"]
    for name in names:
        m, g = grids.mesh(name), grids.mesh(name).grid()
        assert g.nlay in (m.nlay, None), name
        nb = g.neighbors(method="queen", reset=True)
        for c in range(m.n):
            assert sorted(nb[c]) == m.adj[c], (name, c, nb[c], m.adj[c])
        assert np.allclose(np.ravel(g.xcellcenters), m.xc), name
        assert np.allclose(np.ravel(g.ycellcenters), m.yc), name
    print(f"selftest: {len(names)} meshes agree with flopy")
    for mod in WHERE:
        importlib.import_module("checks." + mod)
    return 0


def main(argv):
    from mc import core

    if argv and argv[0] == "--selftest":
        return selftest()

    if argv and argv[0] == "--replay":
        rec = json.load(open(argv[1]))
        known = tuple(core.load_findings(rec["property"]))
        space = next(s for s in spaces_of(rec["property"], rec["tier"])
                     if s.name == rec["space"])
        import signal
        import warnings
        signal.signal(signal.SIGPROF, core._on_alarm)
        warnings.simplefilter("ignore")
        out, sys.stdout = sys.stdout, core._Null()
        if space.pristine:
            core.start_zygote()
        st, payload, _, _ = core.execute(space, rec["case"], known)
        sys.stdout = out
        print(st, payload)
        if st == "bad":
            print(f"VIOLATION property={rec['property']} replay={argv[1]}")
            return 1
        return 0 if st == "ok" else 2
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    return core.run_check(pid, spaces_of(pid, tier), tier, "model_checking",
                          core.ASSUMPTIONS)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
