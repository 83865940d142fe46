"""Generators of hostile but valid inputs (all randomness from the case's rng)."""
import datetime

import numpy as np

from . import ref

DAY = 86400


def year_start(y):
    return ref.to_seconds(datetime.datetime(y, 1, 1))


FACTOR = [1]
"""how many times larger than usual axes and frames are (see large)"""


def large(f, factor=12):
    """the same cases with longer axes and more timeseries"""

    def run(rng, o):
        FACTOR[0] = factor
        try:
            return f(rng, o)
        finally:
            FACTOR[0] = 1

    run.__doc__ = "large: {}".format(f.__doc__)
    return run


def many(rng, n):
    return n if FACTOR[0] == 1 else max(n, rng.randint(n, n * FACTOR[0]))


def axis(rng, n=None, start=None, style=None, lo=4, hi=12):
    """strictly increasing times in seconds"""
    n = n or many(rng, rng.randint(lo, hi))
    style = style or rng.choice(["annual", "decadal", "equal", "irregular", "monthly", "mixed", "seconds", "wide"])
    y = rng.choice([1, 900, 1500, 1765, 1850, 1999, 2000, 2015, 2100, 2262, 3000, 9000]) if start is None else None
    if n > 40 and y == 9000:
        y = 5000
    t0 = year_start(y) if start is None else start
    if style == "annual" and start is None:
        return [year_start(y + i) for i in range(n)]
    if style == "decadal" and start is None:
        y = min(y, 9998 - 10 * n)
        return [year_start(y + 10 * i) for i in range(n)]
    if style == "wide" and start is None:
        ys = sorted(rng.sample(range(1, 9990), n))
        return [year_start(a) + rng.choice([0, 0, rng.randrange(300 * DAY)]) for a in ys]
    if style == "monthly":
        return [t0 + int(i * 30.4375 * DAY) for i in range(n)]
    if style == "irregular":
        out = [t0]
        for _ in range(n - 1):
            out.append(out[-1] + rng.choice([1, 7, 31, 365, 366, 3653]) * DAY + rng.choice([0, 0, rng.randrange(1, DAY)]))
        return out
    if style == "seconds":
        out = [t0]
        for _ in range(n - 1):
            out.append(out[-1] + rng.randint(1, 5000))
        return out
    if style == "mixed":
        out = [t0]
        for _ in range(n - 1):
            out.append(out[-1] + int(10 ** rng.uniform(2, 8.5)))
        return out
    step = rng.choice([365 * DAY, 365 * DAY + 21600, 3600, 30 * DAY, 10 * 365 * DAY])
    return [t0 + i * step for i in range(n)]


RESOLUTIONS = ["s", "ms", "us", "ns"]


def as_dt64(ts, res="s"):
    return np.array(ts, dtype="int64").astype("datetime64[s]").astype("datetime64[%s]" % res)


def values(rng, n, style=None):
    style = style or rng.choice(["normal", "normal", "int", "spiky", "zero", "tiny", "big", "step", "linear", "dust", "giant", "offset"])
    if style == "dust":
        return [rng.gauss(0, 1) * 1e-13 for _ in range(n)]
    if style == "giant":
        return [rng.gauss(0, 1) * 1e14 for _ in range(n)]
    if style == "offset":  # nearly equal
        k = rng.choice([280.0, -1e6, 1.0])
        return [k * (1 + rng.gauss(0, 1) * 1e-7) for _ in range(n)]
    if style == "int":
        return [float(rng.randint(-50, 50)) for _ in range(n)]
    if style == "spiky":
        return [0.0 if rng.random() < 0.7 else rng.uniform(-100, 100) for _ in range(n)]
    if style == "zero":
        return [0.0] * n
    if style == "tiny":
        return [rng.gauss(0, 1) * 1e-6 for _ in range(n)]
    if style == "big":
        return [rng.gauss(0, 1) * 1e6 for _ in range(n)]
    if style == "step":
        k = rng.randint(0, n)
        return [1.0 if i < k else 5.0 for i in range(n)]
    if style == "linear":
        a, b = rng.uniform(-5, 5), rng.uniform(-5, 5)
        return [a + b * i for i in range(n)]
    return [rng.gauss(0, 10) for _ in range(n)]


def number(rng):
    k = rng.randrange(8)
    if k == 0:
        return 0.0
    if k == 1:
        return rng.randint(-100, 100)
    if k == 2:
        return rng.uniform(-1, 1)
    if k == 3:
        return rng.gauss(0, 1) * 1e5
    if k == 4:
        return np.float64(rng.gauss(0, 10))
    return rng.gauss(0, 50)


def refine(rng, ts, parts=3):
    """an axis containing all of ts"""
    out = [ts[0]]
    for a, b in zip(ts, ts[1:]):
        room = b - a - 1
        k = min(rng.randint(0, parts), max(room, 0))
        extra = sorted({a + 1 + rng.randrange(room) for _ in range(k)}) if k else []
        out += extra + [b]
    return out


def within(rng, ts, n=None):
    """an axis inside the range of ts"""
    n = n or rng.randint(4, 10)
    lo, hi = ts[0], ts[-1]
    pool = set(rng.sample(ts, min(len(ts), rng.randint(0, len(ts)))))
    while len(pool) < n and hi - lo + 1 > n:
        pool.add(rng.randint(lo, hi))
    return sorted(pool)


def beyond(rng, ts):
    """an axis reaching outside the range of ts on at least one side"""
    inner = set(within(rng, ts))
    span = ts[-1] - ts[0]
    side = rng.choice(["left", "right", "both", "both"])
    if side != "right":
        # the library requires the second target point not to precede the source
        for _ in range(1):
            inner.add(ts[0] - rng.choice([1, 1 + rng.randrange(span), span // 3 + 1]))
    if side != "left":
        for _ in range(rng.randint(1, 3)):
            inner.add(ts[-1] + rng.choice([1, 1 + rng.randrange(span), span // 3 + 1]))
    if side != "right":
        inner.add(ts[0])
    return sorted(inner)
