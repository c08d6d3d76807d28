"""Boring reference models, written from the properties.

Nothing here imports dany or flopy, and nothing shares code with dany.
"""
import math

THR = 1e-6  # default burn threshold


# ---------------------------------------------------------------- conditioning
def minimax(adj, sources, z):
    """lowest level at which every cell spills into a source cell"""
    w = [math.inf] * len(z)
    for s in sources:
        w[s] = z[s]
    src = set(sources)
    again = True
    while again:
        again = False
        for c in range(len(z)):
            if c in src or not adj[c]:
                continue
            v = max(z[c], min(w[n] for n in adj[c]))
            if v < w[c]:
                w[c] = v
                again = True
    return w


def eps_surface(adj, sources, z, eps):
    """the lowest surface >= z that descends by eps to a source cell"""
    w = [math.inf] * len(z)
    for s in sources:
        w[s] = z[s]
    src = set(sources)
    again = True
    while again:
        again = False
        for c in range(len(z)):
            if c in src or not adj[c]:
                continue
            v = max(z[c], min(w[n] for n in adj[c]) + eps)
            if v < w[c]:
                w[c] = v
                again = True
    return w


def reaches(adj, sources):
    seen, stack = set(sources), list(sources)
    while stack:
        for n in adj[stack.pop()]:
            if n not in seen:
                seen.add(n)
                stack.append(n)
    return seen


def stat(values, method):
    v = sorted(values)
    if method == "min":
        return v[0]
    if method == "max":
        return v[-1]
    if method == "mean":
        return sum(v) / len(v)
    k = len(v)
    return v[k // 2] if k % 2 else (v[k // 2 - 1] + v[k // 2]) / 2


def nan_fill_outcomes(adj, z, method):
    """terminal states of: give any nan cell with a valid neighbor the
    statistic of its valid neighbors, in any order"""
    start = tuple(None if v != v else v for v in z)
    seen, stack, ends = {start}, [start], []
    while stack:
        s = stack.pop()
        moved = False
        for c, v in enumerate(s):
            if v is None:
                vals = [s[n] for n in adj[c] if s[n] is not None]
                if vals:
                    moved = True
                    t = s[:c] + (stat(vals, method),) + s[c + 1:]
                    if t not in seen:
                        seen.add(t)
                        stack.append(t)
        if not moved:
            ends.append(s)
    return ends


# -------------------------------------------------------------- flow direction
def slopes(m, z, c, thr=THR):
    """{neighbor: slope} of the valid neighbors, negative is downhill"""
    out = {}
    for n in m.adj[c]:
        if z[n] != z[n]:
            continue
        d = z[n] - z[c]
        if 0 < d < thr:
            d = 0.0
        out[n] = d / m.dist(c, n)
    return out


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def steepest(m, z, c, thr=THR):
    """(slope, set of neighbors that share it) or (None, empty)"""
    s = slopes(m, z, c, thr)
    if not s:
        return None, set()
    lo = min(s.values())
    # relative: on large cells all slopes are small
    return lo, {n for n, v in s.items() if abs(v - lo) <= 1e-9 * abs(lo)}


def drainable(m, z, sinks, thr=THR):
    """valid cells with a path to a sink that never rises above the threshold"""
    seen, stack = set(sinks), list(sinks)
    while stack:
        c = stack.pop()
        for n in m.adj[c]:
            if n in seen or z[n] != z[n]:
                continue
            # flow from n to c
            if z[c] - z[n] <= 0 or z[c] - z[n] < thr:
                seen.add(n)
                stack.append(n)
    return seen


# ------------------------------------------------------------------ flow paths
def path(fdir, c):
    """cells from c on, and how it ends: 'sink', 'open' (-2) or 'cycle'"""
    out, seen = [], set()
    while True:
        if c in seen:
            return out, "cycle"
        out.append(c)
        seen.add(c)
        n = fdir[c]
        if n == c:
            return out, "sink"
        if n < 0:
            return out, "open"
        c = n


def contributors(fdir):
    """for each cell the set of cells whose flow path visits it"""
    up = [set() for _ in fdir]
    for c in range(len(fdir)):
        for p in path(fdir, c)[0]:
            up[p].add(c)
    return up


def tally(fdir, own):
    """sum of own over the cells that drain through each cell, no cycles"""
    total, into = list(own), [0] * len(fdir)
    for c, d in enumerate(fdir):
        if d >= 0 and d != c:
            into[d] += 1
    ready = [c for c, k in enumerate(into) if k == 0]
    while ready:
        c = ready.pop()
        d = fdir[c]
        if d >= 0 and d != c:
            total[d] += total[c]
            into[d] -= 1
            if into[d] == 0:
                ready.append(d)
    return total


def on_cycle(fdir):
    """cells whose flow path ends in a cycle"""
    state = {}
    for c in range(len(fdir)):
        chain = []
        while c not in state:
            state[c] = "open"
            chain.append(c)
            n = fdir[c]
            if n == c or n < 0:
                state[c] = False
                chain.pop()
                break
            c = n
        end = state[c]
        if end == "open":
            end = True
        for x in chain:
            state[x] = end
    return {c for c, v in state.items() if v}


def all_first_downstream(fdir, members):
    """first_downstream of every cell, for large grids"""
    first = {}
    for c in range(len(fdir)):
        chain, seen = [], set()
        d = c
        while d not in first and d not in members and d not in seen:
            chain.append(d)
            seen.add(d)
            if fdir[d] < 0:
                break
            d = fdir[d]
        end = d if d in members else first.get(d)
        for x in chain:
            first[x] = end
        first[c] = end
    return first


def upstream(fdir, c):
    """the cells whose flow path visits c, for large grids"""
    into = {}
    for a, b in enumerate(fdir):
        into.setdefault(b, []).append(a)
    seen, stack = {c}, [c]
    while stack:
        for a in into.get(stack.pop(), ()):
            if a not in seen:
                seen.add(a)
                stack.append(a)
    return seen


def first_downstream(fdir, members, c):
    for p in path(fdir, c)[0]:
        if p in members:
            return p
    return None


# --------------------------------------------------------------------- streams
def stream_links(fdir, cells):
    """downstream stream cell (itself for a terminal cell) or None"""
    return {c: (fdir[c] if fdir[c] >= 0 and fdir[c] in cells else None)
            for c in cells}


def segments(fdir, cells):
    """stream cells grouped between headwaters, confluences and outlets

    a cell starts a segment unless exactly one stream cell flows into it; a
    terminal cell flows into itself.  Returns {start: [cells]}; only for
    networks without cycles.
    """
    link = stream_links(fdir, cells)
    inflow = {c: 0 for c in cells}
    for c, d in link.items():
        if d is not None:
            inflow[d] += 1
    starts = {c for c in cells if inflow[c] != 1 or link[c] == c}
    out = {}
    for s in starts:
        chain = [s]
        while link[chain[-1]] is not None and link[chain[-1]] not in starts:
            chain.append(link[chain[-1]])
        out[s] = chain
    return out
