import datetime
import warnings

import numpy as np
import pandas as pd

from openscm.core.parameters import ParameterType
from openscm.core.time import ExtrapolationType, InterpolationType
from openscm.errors import InsufficientDataError
from openscm.scmdataframe import ScmDataFrame
from openscm.scmdataframe.base import ScmDataFrameBase

from mon import gen, ref, scm
from mon.core import Family
from mon.props import t05

RULE = (
    "a case is a random frame mixing points and averages (given in metadata in several spellings or guessed from unit or name) with random further metadata, put onto "
    "random grids (finer, coarser, shifted, beyond the data) or date range rules; every timeseries is compared with an exact rational conversion of its own; "
    "non-trivial: both kinds occur in the frame"
)
COVER = [
    "points and averages", "given", "guessed by unit", "guessed by name", "some given some guessed", "upper case type", "constant", "linear", "none", "none refused", "default extrapolation",
    "enum arguments", "finer", "coarser", "shifted", "beyond both ends", "same times", "missing metadata", "extra metadata", "list of datetimes", "datetime64 array", "datetime64 ns or ms",
    "before 1677", "after 2262", "resample", "resample default", "resample with options", "interleaved kinds", "one timeseries", "after filter", "after append", "subclass",
    "too short refused", "unknown type refused", "object array", "round trip",
    "unordered time points", "unordered time points resampled",
    "years as integers", "years as floats", "one time",
]
ASSUMPTIONS = ["values are complete (no missing values in interpolated frames)", "the value of an average series at its last time point is taken over a last step of the same length"]
TECHNIQUE = "interpolation events compared, timeseries by timeseries, with exact rational conversions (mon/ref.py)"

NAMED = {  # (name, unit) -> kind, decided by name
    ("Emissions|CO2 eq", "unknown_unit"): "average", ("Surface Temperature|x", "unknown_unit"): "point", ("Atmospheric Concentrations|y", "people"): "point",
    ("Radiative Forcing|z", "USD"): "average", ("Net Land Flux", "foo/bar"): "average", ("Something", "index"): "point",
}


def build(rng, o, ts, n=None):
    n = n or rng.choice([1, 2, 3, 5, 7])
    rows = scm.metadata(rng, n, missing=rng.choice([0, 0.4]), units=sorted(scm.UNIT))
    kinds, how = [], set()
    style = rng.choice(["given", "given", "unit", "mixed", "mixed"])
    for i, r in enumerate(rows):
        if rng.random() < 0.2:
            (r["variable"], r["unit"]), k = rng.choice(sorted(NAMED.items()))
            r["variable"] += "|%d" % i if not r["variable"].startswith("Net") else ""
            via = "guessed by name"
        else:
            k = scm.kind(r)
            via = "guessed by unit"
        given = style == "given" or (style == "mixed" and rng.random() < 0.5)
        if style != "unit":
            r["parameter_type"] = None
        if given:
            k = rng.choice(["point", "average"])
            r["parameter_type"] = rng.choice([k, k, k, k.upper(), k.title()])
            if r["parameter_type"] != k:
                o.cover("upper case type")
            via = "given"
        how.add(via)
        kinds.append(k)
        o.cover(via)
    if len(how) > 1 and "given" in how:
        o.cover("some given some guessed")
    if len(rows) > 2 and any(a != b and b != c for a, b, c in zip(kinds, kinds[1:], kinds[2:])):
        o.cover("interleaved kinds")
    if len(set(kinds)) > 1:
        o.cover("points and averages")
        o.nontrivial()
    if len(rows) == 1:
        o.cover("one timeseries")
    m = scm.Model(rows, ts, scm.matrix(rng, len(rows), len(ts)))
    if any(r.get(c) is None for r in rows for c in m.cols if c != "parameter_type"):
        o.cover("missing metadata")
    if len(m.cols) > 6:
        o.cover("extra metadata")
    if ref.from_seconds(ts[0]).year < 1677:
        o.cover("before 1677")
    if ref.from_seconds(ts[-1]).year > 2262:
        o.cover("after 2262")
    return m, kinds


def grid(rng, o, ts):
    """-> target times"""
    k = rng.choice(["finer", "coarser", "shifted", "beyond", "beyond", "same", "inside"])
    span = ts[-1] - ts[0]
    if k == "same":
        o.cover("same times")
        return list(ts)
    if k == "finer":
        o.cover("finer")
        return gen.refine(rng, ts)
    if k == "coarser":
        o.cover("coarser")
        return sorted(rng.sample(ts, rng.randint(2, len(ts))))
    if k == "shifted":
        o.cover("shifted")
        d = rng.randrange(1, max(2, min(b - a for a, b in zip(ts, ts[1:]))))
        return [t + d for t in ts]
    if k == "inside":
        return gen.within(rng, ts)
    o.cover("beyond both ends")
    out = {t for t in gen.within(rng, ts)} | {ts[-1] + rng.randrange(1, span + 1), ts[-1] + rng.randrange(1, span + 1)}
    out.add(ts[0] - rng.randrange(1, span // 2 + 2))
    return sorted(out)


def target_arg(rng, o, tgt):
    k = rng.choice(["list", "list", "dt64", "fine", "object"])
    if k == "list":
        o.cover("list of datetimes")
        return [ref.from_seconds(t) for t in tgt]
    if k == "object":
        o.cover("object array")
        return np.array([ref.from_seconds(t) for t in tgt], dtype=object)
    if k == "fine":
        res = rng.choice(["ns", "ms"])
        if res == "ms" or all(1700 < ref.from_seconds(t).year < 2250 for t in tgt):
            o.cover("datetime64 ns or ms")
            return gen.as_dt64(tgt, res)
    o.cover("datetime64 array")
    return gen.as_dt64(tgt)


def options(rng, o, ex):
    kw = {}
    if ex == "constant" and rng.random() < 0.4:
        o.cover("default extrapolation")
    elif rng.random() < 0.4:
        kw["extrapolation_type"] = ExtrapolationType[ex.upper()]
        o.cover("enum arguments")
    else:
        kw["extrapolation_type"] = rng.choice([ex, ex.upper()])
    if rng.random() < 0.3:
        kw["interpolation_type"] = rng.choice(["linear", InterpolationType.LINEAR])
    o.cover(ex)
    return kw


class Sub(ScmDataFrameBase):
    pass


def suitable(ts, tgt, ex):
    """within the years of the library and not refused for lack of data"""
    if tgt[0] < gen.year_start(2) or 2 * tgt[-1] - tgt[-2] > gen.year_start(9998):
        return False
    return tgt[1] >= ts[0]


def source(rng, n=None):
    for _ in range(50):
        ts = scm.times(rng, n=n or rng.randint(3, 9))
        if ts[0] >= gen.year_start(2) and 2 * ts[-1] - ts[max(len(ts) - 2, 0)] < gen.year_start(9900) and ts[-1] - ts[0] < 3000 * 366 * gen.DAY:
            return ts
    return [gen.year_start(2000 + i) for i in range(n or 5)]


def interpolate(rng, o):
    ts = source(rng)
    m, kinds = build(rng, o, ts)
    if not m.unique():
        return
    ex = rng.choice(["constant", "constant", "linear", "none"])
    tgt = grid(rng, o, ts)
    if len(tgt) < 2 or not suitable(ts, tgt, ex):
        return
    cls = rng.choice([ScmDataFrame, ScmDataFrame, Sub])
    src = m
    if rng.random() < 0.25:
        src = m.unordered(rng)
        if src.times != m.times:
            o.cover("unordered time points")
    f = src.build(cls)
    if cls is Sub:
        o.cover("subclass")
    if rng.random() < 0.3 and len(m.rows) > 1:
        gone = rng.choice(m.rows)["scenario"]
        keep = [i for i, r in enumerate(m.rows) if r["scenario"] != gone]
        if keep and "*" not in gone:
            f = f.filter(scenario=gone, keep=False)
            m, kinds = m.take(keep), [kinds[i] for i in keep]
            o.cover("after filter")
    before = scm.read(o, f)
    kw = options(rng, o, ex)
    arg = target_arg(rng, o, tgt)
    o.event("interpolate", "{} kinds {} onto {} of {} times", kw, kinds, len(tgt), len(ts))
    o.state(ex, len(set(kinds)), len(tgt) > len(ts))
    if ex == "none":
        ok = True
        for k in set(kinds):
            src, t = (scm.extended(ts), scm.extended(tgt)) if k == "average" else (ts, tgt)
            ok = ok and src[0] <= t[0] and t[-1] <= src[-1]
        if not ok:
            o.raises(InsufficientDataError, "beyond the data without extrapolation", f.interpolate, arg, **kw)
            o.cover("none refused")
            scm.compare(o, scm.read(o, f), before, "frame after a refused interpolation", order=True)
            return
    got = o.returns("interpolate", f.interpolate, arg, **kw)
    o.check(type(got) is cls, "type of the result")
    exp, tol = scm.interpolated(m, tgt, ex, kinds)
    if not exp.unique():
        return
    r = scm.read(o, got)
    scm.compare(o, r, exp, "interpolated frame", order=True, atol=tol, kinds=kinds)
    scm.compare(o, scm.read(o, f), before, "source of interpolate", order=True)
    if rng.random() < 0.4 and set(ts) <= set(tgt) and len(tgt) > len(ts):
        # points are still there; going back gives the source
        pts = [i for i, k in enumerate(kinds) if k == "point"]
        if pts:
            back = o.returns("interpolate back", got.interpolate, [ref.from_seconds(t) for t in ts])
            rb = scm.read(o, back)
            for i in pts:
                o.close(rb.vals[i], m.vals[i], "points after going to a finer grid and back", rtol=1e-9, atol=1e-9 * max(map(abs, m.vals[i])))
            o.cover("round trip")
    if len(set(kinds)) > 1 and rng.random() < 0.5:
        # each timeseries alone gives the same
        i = rng.randrange(len(m.rows))
        alone = scm.Model([dict(m.rows[i], parameter_type=kinds[i])], ts, [m.vals[i]]).build()
        ra = scm.read(o, o.returns("interpolate alone", alone.interpolate, arg, **kw))
        o.close(ra.vals[0], r.vals[i], "a timeseries alone and within a frame", rtol=1e-12, atol=1e-12 * max(map(abs, m.vals[i])))


def years(rng, o):
    """times given as years, as integers or floats"""
    first = rng.choice([1, 1500, 1677, 1900, 1970, 2000, 2262, 8000])
    ys = sorted(first + y for y in rng.sample(range(0, 400), rng.randint(3, 7)))
    ts = [gen.year_start(y) for y in ys]
    m, kinds = build(rng, o, ts, n=rng.randint(1, 4))
    if not m.unique():
        return
    ask = sorted(rng.sample(range(ys[0], ys[-1] + rng.choice([1, 60])), 2 + rng.randrange(2) if ys[-1] - ys[0] > 3 else 2))
    tgt = [gen.year_start(y) for y in ask]
    if not suitable(ts, tgt, "constant"):
        return
    form = rng.choice(["int", "int", "float", "ints", "mixed"])
    if form == "int":
        arg = list(ask)
    elif form == "ints":
        arg = np.array(ask, dtype=rng.choice([np.int64, np.int32, np.uint16]))
    elif form == "float":
        arg = [float(y) for y in ask]
    else:
        arg = [ref.from_seconds(tgt[0])] + ask[1:]
    o.cover("years as floats" if form == "float" else "years as integers")
    exp, tol = scm.interpolated(m, tgt, "constant", kinds)
    if not exp.unique():
        return
    got = o.returns("interpolate onto years", m.build().interpolate, arg)
    o.event("years", "{} {} kinds {}", form, ask, kinds)
    scm.compare(o, scm.read(o, got), exp, "frame interpolated onto years", order=True, atol=tol)


def one_time(rng, o):
    ts = source(rng)
    m, _ = build(rng, o, ts, n=rng.randint(1, 3))
    for r in m.rows:
        r["parameter_type"] = "point"
    if not m.unique():
        return
    ex = rng.choice(["constant", "linear", "none"])
    t = rng.choice([ts[0], ts[-1], rng.choice(ts), rng.randint(ts[0], ts[-1])])
    m = scm.Model(m.rows, ts, m.vals)
    exp, tol = scm.interpolated(m, [t], ex, ["point"] * len(m.rows))
    if not exp.unique():
        return
    f = m.build()
    got = o.returns("interpolate at one time", f.interpolate, rng.choice([[ref.from_seconds(t)], gen.as_dt64([t])]), extrapolation_type=ex)
    o.event("one time", "{} of {} {}", t, len(ts), ex)
    o.cover("one time")
    scm.compare(o, scm.read(o, got), exp, "frame interpolated at one time", order=True, atol=tol)


def appended(rng, o):
    """frames whose parameter types come from different histories"""
    ts = [gen.year_start(2000 + 3 * i) for i in range(rng.randint(4, 7))]
    a, ka = build(rng, o, ts, n=rng.randint(1, 3))
    b, kb = build(rng, o, ts, n=rng.randint(1, 3))
    for r in a.rows:
        r["model"] = "first"
    for r in b.rows:
        r["model"] = "second"
    if not (a.unique() and b.unique()):
        return
    rows = [dict(r) for r in a.rows + b.rows]
    f = a.build().append(b.build(), duplicate_msg=False)
    o.cover("after append")
    tgt = [gen.year_start(2000 + 2 * i) for i in range(6)]
    joint = scm.Model(rows, ts, a.vals + b.vals)
    for r in rows:
        for c in joint.cols:
            r.setdefault(c, None)
    joint = scm.Model(rows, ts, a.vals + b.vals)
    exp, tol = scm.interpolated(joint, tgt, "constant", ka + kb)
    if not exp.unique() or not joint.unique():
        return
    got = o.returns("interpolate", f.interpolate, gen.as_dt64(tgt))
    scm.compare(o, scm.read(o, got), exp, "interpolated after append", atol=tol)


def resample(rng, o):
    kind, anchor, mult, code = t05.rule(rng, o)
    start, end = t05.span(rng, o, kind, anchor, mult)
    if start.year < 5 or end - start < datetime.timedelta(seconds=60):
        start = datetime.datetime(1900, 2, 3)
        end = start + datetime.timedelta(days=rng.randint(20, 400))
    default = rng.random() < 0.15
    if default:
        kind, anchor, mult, code = "yearly start", 1, 1, "AS"
        end = max(end, start + datetime.timedelta(days=300))
    exp_t = t05.expected(kind, anchor, mult, start, end)
    if not 2 <= len(exp_t) <= 400:
        return
    t0, t1 = ref.to_seconds(start), ref.to_seconds(end)
    ts = sorted({t0, t1} | {rng.randint(t0, t1) for _ in range(rng.randint(1, 5))})
    tgt = [ref.to_seconds(t) for t in exp_t]
    if len(ts) < 3 or not suitable(ts, tgt, "constant"):
        return
    m, kinds = build(rng, o, ts, n=rng.randint(1, 3))
    ex = rng.choice(["constant", "constant", "linear"])
    if ex == "linear" and (tgt[-1] - ts[-1]) + (ts[0] - tgt[0]) > 50 * min(b - a for a, b in zip(ts, ts[1:])):
        ex = "constant"
    kw = {} if ex == "constant" else {"extrapolation_type": ex}
    if kw:
        o.cover("resample with options")
    exp, tol = scm.interpolated(m, tgt, ex, kinds)
    if not exp.unique() or not m.unique():
        return
    src = m
    if rng.random() < 0.25:
        src = m.unordered(rng)
        if src.times != m.times:
            o.cover("unordered time points resampled")
    f = src.build()
    o.event("resample", "{} {} {} {}", code, start, end, kinds)
    got = o.returns("resample", f.resample, *([] if default else [code]), **kw)
    o.cover("resample default" if default else "resample")
    scm.compare(o, scm.read(o, got), exp, "resampled frame", order=True, atol=tol, rule=code)
    same = o.returns("interpolate", f.interpolate, list(exp_t), **kw)
    scm.compare(o, scm.read(o, same), scm.read(o, got), "resample and interpolate onto its range", order=True)


def refused(rng, o):
    short = source(rng, n=rng.choice([1, 2]))
    m, kinds = build(rng, o, short, n=2)
    if m.unique():
        f = m.build()
        before = scm.read(o, f)
        o.raises(InsufficientDataError if len(short) == 2 else (InsufficientDataError, IndexError), "less than three time points", f.interpolate, [ref.from_seconds(short[0] + i * gen.DAY) for i in range(3)])
        scm.compare(o, scm.read(o, f), before, "after a refused interpolation", order=True)
        o.cover("too short refused")
    ts = source(rng)
    m, kinds = build(rng, o, ts, n=2)
    for r in m.rows:
        r["parameter_type"] = "point"
    m.rows[-1]["parameter_type"] = rng.choice(["averaged", "junk", " point"])
    if m.unique():
        f = m.build()
        before = scm.read(o, f)
        o.raises(ValueError, "unknown parameter type", f.interpolate, [ref.from_seconds(t) for t in ts])
        scm.compare(o, scm.read(o, f), before, "after a refused interpolation", order=True)
        o.cover("unknown type refused")


FAMILIES = [
    Family("interpolate", interpolate, 150, 3000),
    Family("appended", appended, 30, 400),
    Family("resample", resample, 110, 1800),
    Family("years", years, 40, 600),
    Family("one time", one_time, 30, 400),
    Family("refused", refused, 30, 300),
]
FAMILIES += [
    Family("large interpolate", gen.large(interpolate), 10, 150),
]
