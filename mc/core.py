"""Bounded exhaustive explorer.

A check is a set of *spaces*.  A space is a finite, deterministically ordered
enumeration of cases (inputs, configurations or operation histories).  Every
case is executed on the real dany code and compared with a reference model; the
run is a verdict on every case of the space, never on a sample.
"""
import hashlib
import itertools
import json
import multiprocessing as mp
import os
import pickle
import resource
import signal
import sys
import time
import traceback
import warnings

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DANY_REPO", "/repo")

import numpy as np  # noqa: E402
import flopy  # noqa: E402,F401
from flopy.utils import geospatial_utils  # noqa: E402,F401

# dany itself is always compiled from the working tree, never from a stale pyc
_prefix = sys.pycache_prefix
sys.pycache_prefix = "/nonexistent-pycache"
sys.path.insert(0, REPO)
import dany  # noqa: E402
import dany.stream_util  # noqa: E402

sys.pycache_prefix = _prefix
assert os.path.realpath(dany.__file__).startswith(
    os.path.realpath(REPO) + os.sep
), dany.__file__

WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
CASE_CPU_S = 30.0
WALL_S = {"quick": 700, "thorough": 6 * 3600}


class Violation(Exception):
    """the code broke the property on this case"""


class Finding(Exception):
    """the code broke the property in a way that has a signature

    Suppressed only when known_findings.txt lists exactly this key.
    """

    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key


class Hang(BaseException):
    pass


def _on_alarm(*_):
    raise Hang()


class _Null:
    def write(self, *_):
        return 0

    def flush(self):
        pass

    def isatty(self):
        return False


class Ctx:
    """per case counters; ctx.op() is called for every API call on dany"""

    def __init__(self):
        self.ops = 0
        self.findings = {}
        self.known = ()

    def op(self, n=1):
        self.ops += n

    def finding(self, key, msg):
        if key not in self.known:
            raise Violation(msg)
        self.findings.setdefault(key, msg)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Space:
    def __init__(self, name, gen, run, what, chunk=64, pristine=False):
        """gen() yields json-able cases; run(ctx, case) -> outcome or None"""
        self.name, self.gen, self.run, self.what = name, gen, run, what
        self.chunk = 2 if name == "large" and chunk == 64 else chunk
        # whether run asks for results from processes without a history
        self.pristine = pristine
        # CPU seconds for one case; a normal case takes a small part of it
        self.cpu_s = 300.0 if name == "huge" else CASE_CPU_S


def execute(space, case, known=()):
    """-> (status, payload, ops, findings)"""
    ctx = Ctx()
    ctx.known = known
    signal.setitimer(signal.ITIMER_PROF, space.cpu_s)
    try:
        try:
            out = space.run(ctx, case)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        return "ok", out, ctx.ops, ctx.findings
    except Violation as e:
        return "bad", str(e), ctx.ops, ctx.findings
    except Finding as e:
        if e.key in known:
            ctx.findings.setdefault(e.key, str(e))
            return "ok", ("finding", e.key), ctx.ops, ctx.findings
        return "bad", str(e), ctx.ops, ctx.findings
    except Hang:
        return (
            "bad",
            f"did not terminate: over {space.cpu_s:.0f} s of CPU time on an "
            "input that takes a small part of it",
            ctx.ops,
            ctx.findings,
        )
    except MemoryError:
        return "bad", "did not terminate: out of memory", ctx.ops, ctx.findings
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = [
            f for f in tb
            if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)
        ]
        where = ""
        if inside:
            where = f" at {os.path.basename(inside[-1].filename)}:{inside[-1].lineno}"
            return (
                "bad",
                f"raised {type(e).__name__}: {e}{where}",
                ctx.ops,
                ctx.findings,
            )
        # the harness could not digest what dany returned (wrong type, shape or
        # missing entry); without any call on dany it is an error of the harness
        if ctx.ops and isinstance(
                e, (TypeError, ValueError, LookupError, AttributeError, OSError)):
            return (
                "bad",
                "the result is not usable: " + traceback.format_exc(limit=-2),
                ctx.ops,
                ctx.findings,
            )
        return "err", traceback.format_exc(), ctx.ops, ctx.findings


# ------------------------------------------------------- pristine processes
# Results that a history is compared with are calculated in a process in which
# dany did nothing before: nothing that the library keeps can leak into them.
_ZYGOTE = None


def _send(fd, data):
    data = len(data).to_bytes(8, "little") + data
    while data:
        data = data[os.write(fd, data):]


def _recv(fd):
    def take(n):
        out = b""
        while len(out) < n:
            d = os.read(fd, min(n - len(out), 1 << 20))
            if not d:
                return None
            out += d
        return out

    head = take(8)
    return None if head is None else take(int.from_bytes(head, "little"))


def _answer(out, data):
    try:
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
        module, name, args = pickle.loads(data)
        ctx = Ctx()
        got = "ok", getattr(sys.modules[module], name)(ctx, *args), ctx.ops
    except Hang:
        got = "bad", "did not terminate", 0
    except Violation as e:
        got = "bad", str(e), 0
    except Exception as e:
        inside = any(os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)
                     for f in traceback.extract_tb(e.__traceback__))
        got = "bad" if inside else "err", traceback.format_exc(limit=-3), 0
    _send(out, pickle.dumps(got))


def start_zygote():
    """fork the process that the pristine processes are forked from"""
    global _ZYGOTE
    if _ZYGOTE is not None and _ZYGOTE[0] == os.getpid():
        return
    req_r, req_w = os.pipe()
    res_r, res_w = os.pipe()
    sys.stderr.flush()
    if os.fork() == 0:
        try:
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            os.close(req_w)
            os.close(res_r)
            while True:
                data = _recv(req_r)
                if data is None:
                    break
                pid = os.fork()
                if pid == 0:
                    os.close(req_r)
                    _answer(res_w, data)
                    os._exit(0)
                if os.waitpid(pid, 0)[1] != 0:
                    _send(res_w, pickle.dumps(("bad", "the process did not survive", 0)))
        finally:
            os._exit(0)
    os.close(req_r)
    os.close(res_w)
    _ZYGOTE = os.getpid(), req_w, res_r


def pristine(ctx, fn, *args):
    """fn(ctx, *args), called where dany was not called before"""
    start_zygote()
    _send(_ZYGOTE[1], pickle.dumps((fn.__module__, fn.__name__, args)))
    got = _recv(_ZYGOTE[2])
    if got is None:
        raise RuntimeError("no answer from the pristine process")
    st, payload, ops = pickle.loads(got)
    ctx.op(max(1, ops))
    if st == "bad":
        raise Violation(f"raised on a new object: {payload}")
    if st == "err":
        raise RuntimeError(payload)
    return payload


_SPACE = None
_KNOWN = ()


def _init():
    signal.signal(signal.SIGPROF, _on_alarm)
    sys.stdout = _Null()
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    lim = 6 * 1024**3
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    if _SPACE.pristine:
        start_zygote()


def _digest(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()


def _work(chunk):
    n = ops = nontriv = 0
    outs, finds, bad = set(), {}, None
    for i, case in enumerate(chunk):
        st, payload, o, f = execute(_SPACE, case, _KNOWN)
        if st == "ok" and i == 0:
            # the harness owns every source of nondeterminism: the first case of
            # each chunk runs twice and has to give the same result
            again = execute(_SPACE, case, _KNOWN)[:2]
            if again[0] != "ok" or _digest(again[1]) != _digest(payload):
                st, payload = "bad", f"the same case gave two results: {again[1]}"
        n += 1
        ops += o
        for k, m in f.items():
            finds.setdefault(k, (case, m, 0))
            finds[k] = finds[k][:2] + (finds[k][2] + 1,)
        if st != "ok":
            bad = (st, case, payload)
            break
        if payload is not None:
            nontriv += 1
            outs.add(_digest(payload))
    return n, ops, nontriv, outs, finds, bad


def _chunks(it, size):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, size))
        if not c:
            return
        yield c


def load_findings(pid):
    keys = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                parts = line.split(None, 3)
                kv = dict(p.split("=", 1) for p in parts[1:3])
                if kv["property"] == pid:
                    keys[kv["key"]] = parts[3]
    return keys


def run_check(pid, spaces, tier, level, assumptions):
    global _SPACE, _KNOWN
    t0 = time.time()
    known = load_findings(pid)
    _KNOWN = tuple(known)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tot = dict(cases=0, ops=0, nontriv=0)
    per, outcomes, samples, finds = [], set(), [], {}
    violation = None
    capped = False
    for space in spaces:
        _SPACE = space
        ts = time.time()
        n = ops = nontriv = 0
        outs = set()
        first = None
        gen = space.gen()
        with mp.Pool(WORKERS, _init) as pool:
            def feed():
                nonlocal first
                for c in _chunks(gen, space.chunk):
                    if first is None:
                        first = c[0]
                    yield c
            for r in bounded_imap(pool, feed()):
                n += r[0]
                ops += r[1]
                nontriv += r[2]
                outs |= r[3]
                for k, v in r[4].items():
                    if k in finds:
                        finds[k] = finds[k][:2] + (finds[k][2] + v[2],)
                    else:
                        finds[k] = v
                if r[5]:
                    violation = (space, r[5])
                    break
                if time.time() - t0 > WALL_S[tier]:
                    capped = True
                    break
            pool.terminate()
        per.append(
            dict(space=space.name, what=space.what, cases=n, api_calls=ops,
                 nontrivial=nontriv, distinct_outcomes=len(outs),
                 complete=violation is None and not capped,
                 wall_s=round(time.time() - ts, 2))
        )
        print(f"  {pid} {space.name}: cases={n} api_calls={ops} "
              f"distinct_outcomes={len(outs)} {time.time() - ts:.1f}s")
        tot["cases"] += n
        tot["ops"] += ops
        tot["nontriv"] += nontriv
        outcomes |= {space.name.encode() + o for o in outs}
        if first is not None:
            samples.append({"space": space.name, "case": first})
        if violation or capped:
            break
    rc = 0
    if violation and violation[1][0] == "err":
        print("harness error on", json.dumps(violation[1][1]))
        print(violation[1][2])
        rc = 2
    elif violation:
        space, (_, case, msg) = violation
        path = write_replay(pid, tier, space, case, msg)
        print(f"violated on case {json.dumps(case)} of {space.name}: {msg}")
        print(f"VIOLATION property={pid} replay={path}")
        rc = 1
    for k in sorted(known):
        if k in finds:
            print(f"KNOWN-FINDING: property={pid} {known[k]} "
                  f"(key={k}, seen on {finds[k][2]} cases, "
                  f"first {json.dumps(finds[k][0])})")
    if capped:
        print(f"NOTE: wall limit reached, {space.name} not complete")
    ev = dict(
        property=pid, tier=tier, seed=seed, level=level,
        coverage=dict(
            states=tot["cases"], transitions=tot["ops"],
            traces_validated_against_impl=tot["cases"] - (1 if violation else 0),
            evaluations=tot["cases"],
            distinct_nontrivial=len(outcomes),
            rule="every case of each listed space is enumerated, executed on "
                 "the real code and compared with the reference model; a case "
                 "is distinct and non-trivial by the digest of its observed "
                 "outcome, cases outside the property's precondition have no "
                 "outcome",
            exhaustive=not capped and violation is None,
            spaces=per, samples=samples,
            known_findings={k: v[2] for k, v in finds.items()},
            explanation="states: cases (inputs, configurations, or histories) "
                        "enumerated; transitions: dany API calls executed on "
                        "them; each case is one trace replayed on the "
                        "implementation itself",
        ),
        assumptions=assumptions,
        wall_s=round(time.time() - t0, 2),
        violations=1 if rc == 1 else 0,
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=_js)
    print(f"{pid} {tier}: cases={tot['cases']} api_calls={tot['ops']} "
          f"distinct_outcomes={len(outcomes)} exhaustive={ev['coverage']['exhaustive']} "
          f"{ev['wall_s']}s rc={rc}")
    return rc


def bounded_imap(pool, chunks):
    """ordered imap with a bounded look-ahead"""
    from collections import deque
    q = deque()
    for c in chunks:
        q.append(pool.apply_async(_work, (c,)))
        if len(q) >= WORKERS * 6:
            yield q.popleft().get()
    while q:
        yield q.popleft().get()


def _js(o):
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    return str(o)


def write_replay(pid, tier, space, case, msg):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = dict(property=pid, tier=tier, space=space.name, case=case, message=msg,
                how="/opt/venv/bin/python /verif/check.py --replay <this file>")
    txt = json.dumps(body, indent=1, default=_js)
    path = os.path.join(
        d, f"{pid}-{hashlib.sha1(txt.encode()).hexdigest()[:10]}.json")
    with open(path, "w") as f:
        f.write(txt)
    return path


ASSUMPTIONS = [
    "flopy, numpy and the Python interpreter are trusted",
    "behaviours outside the enumerated grids, elevation alphabets and operation "
    "depths are not covered",
    "the reference models in mc/model.py and checks/ state the property correctly",
]
