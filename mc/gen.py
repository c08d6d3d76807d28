"""deterministic enumerations shared by the checks"""
import heapq
import itertools
import math
import zlib


def dems(n, alphabet, unique_min=False):
    for z in itertools.product(alphabet, repeat=n):
        if unique_min and z.count(min(z)) != 1:
            continue
        yield list(z)


def framed(m, rim, outlets, inner):
    """rim elevation on the boundary except one outlet; inner on the rest"""
    inside = [c for c in range(m.n) if c not in set(m.boundary)]
    for o, level in outlets:
        for v in itertools.product(inner, repeat=len(inside)):
            z = [rim] * m.n
            z[o] = level
            for c, x in zip(inside, v):
                z[c] = x
            yield z


def subsets(n, sizes):
    for k in sizes:
        for s in itertools.combinations(range(n), k):
            yield list(s)


def every(seq, step, start=0):
    """fixed stride through an enumeration (a smaller, still fixed, space)"""
    return itertools.islice(seq, start, None, step)


def cycle_with(seq, *options):
    """pair consecutive cases with the combinations of options in rotation:
    as many cases as there are combinations meet all of them"""
    combos = list(itertools.product(*options))
    k = len(combos)
    # steps through all combinations so that neighbors differ in each option
    step = max(1, int(k * 0.618034))
    while math.gcd(step, k) > 1:
        step += 1
    for i, s in enumerate(seq):
        yield [s] + list(combos[(i * step + i // k) % k])


def key(*what):
    """a fixed number for any case, to select options that are not part of it"""
    return zlib.crc32(repr(what).encode())


# scale and offset of elevations: below zero, gentle, high
RELIEF = ((1.0, 0.0), (1.0, -5.25), (0.001, 0.0), (1.0, -400.0), (0.001, -3.0), (0.01, 4000.0),
          (40.0, 0.0))


def relief(seq):
    """the same DEMs at different elevations and slopes, in rotation"""
    for i, z in enumerate(seq):
        a, b = RELIEF[(i + i // 7) % 7]
        yield [None if v is None else a * v + b for v in z]


# ----------------------------------------------------------- larger terrains
def _mix(i, k):
    """a fixed integer hash"""
    x = (i * 2654435761 + k * 40503 + 12345) & 0xFFFFFFFF
    x ^= x >> 15
    x = (x * 2246822519) & 0xFFFFFFFF
    x ^= x >> 13
    return (x * 3266489917 & 0xFFFFFFFF) >> 16


def terrain(m, k, outlet, kind):
    """a fixed DEM that drains to one outlet (except for kind 'raw')

    rough: noise; plane: noise on a plane; cone: distance to the outlet;
    flat: one level; steps: few levels, many flats;
    nan: rough with unconnected cells of nan; raw: noise that is not drained
    """
    x0, y0 = m.xc[outlet], m.yc[outlet]
    z = []
    for c in range(m.n):
        h = _mix(c, k)
        d = abs(m.xc[c] - x0) + abs(m.yc[c] - y0)
        if kind == "plane":
            z.append(d * 3.0 + h % 7)
        elif kind == "flat":
            z.append(1.0)
        elif kind == "cone":
            z.append(10.0 * math.hypot(m.xc[c] - x0, m.yc[c] - y0))
        elif kind == "steps":
            z.append(float(int(d) // 4) + (h % 11 == 0))
        else:
            z.append(float(h % 1000) / 4)
    dead = {c for c in range(m.n) if kind == "nan" and c != outlet and _mix(c, k + 77) % 9 == 0}
    if kind != "raw":
        z[outlet] = min(z) - 5.0
        eps = 0.0 if kind in ("steps", "flat") else 0.125
        heap, seen = [(z[outlet], outlet)], {outlet}
        while heap:
            e, c = heapq.heappop(heap)
            for n in m.adj[c]:
                if n not in seen and n not in dead:
                    seen.add(n)
                    z[n] = max(z[n], e + eps)
                    heapq.heappush(heap, (z[n], n))
        dead |= set(range(m.n)) - seen
    if k % 2:
        # below sea level
        z = [v - 3000.0 for v in z]
    for c in dead:
        z[c] = None
    return z
