import math
from fractions import Fraction

import numpy as np
import pandas as pd

from openscm.scmdataframe import ScmDataFrame

from mon import gen, ref, scm
from mon.core import Family
from mon.props.s02 import selects

RULE = (
    "a case is a random frame with groups of different sizes and missing values and metadata, processed over random columns; every group is computed anew from the raw values "
    "(exact rational mean, sorted-list quantiles); reference periods are random time filters; non-trivial: several groups, one of them of several timeseries"
)
COVER = [
    "mean", "median", "quantile", "quantile 0 or 1", "quantile interpolation", "default quantile", "str", "list", "tuple", "several columns", "missing metadata in a group", "missing values",
    "all values missing at a time", "single group column", "groups of one", "unknown operation", "column not there", "numeric metadata", "mixed metadata", "one group", "source unchanged",
    "reference year range", "reference year list", "reference month", "reference single value", "reference text filter", "reference other filter", "suffix given", "suffix made", "missing in reference", "missing metadata in reference", "single timeseries",
    "before 1677", "after 2262", "even group", "odd group", "interleaved groups", "series outside reference", "name contains another",
]
ASSUMPTIONS = ["processing over all columns at once (no group left) is not specified", "statistics skip missing values like pandas does"]
TECHNIQUE = "statistics events compared with group-by-group recomputation from raw values"


def stat(op, xs, q=0.5, how="linear"):
    xs = sorted(x for x in xs if not math.isnan(x))
    if not xs:
        return float("nan")
    if op == "mean":
        return float(sum(map(Fraction, xs)) / len(xs))
    if op == "median":
        q, how = 0.5, "linear"
    pos = Fraction(q).limit_denominator(10 ** 6) * (len(xs) - 1)
    lo = math.floor(pos)
    hi = min(lo + 1, len(xs) - 1)
    frac = pos - lo
    if frac == 0:
        return xs[lo]
    if how == "lower":
        return xs[lo]
    if how == "higher":
        return xs[hi]
    if how == "midpoint":
        return float((Fraction(xs[lo]) + Fraction(xs[hi])) / 2)
    return float(Fraction(xs[lo]) + frac * (Fraction(xs[hi]) - Fraction(xs[lo])))


def build(rng, o):
    """frame whose timeseries fall into groups"""
    ts = scm.times(rng, n=rng.randint(1, 6))
    base = scm.metadata(rng, rng.choice([1, 1, 2, 3, 4]), missing=rng.choice([0, 0.5]), extra=rng.sample(sorted(scm.EXTRA), rng.choice([0, 1, 2, 3])))
    mixed = rng.random() < 0.2
    rows = []
    for b in base:
        for k in range(rng.choice([1, 2, 3, 4, 5])):
            r = dict(b)
            r["run"] = k
            if rng.random() < 0.3:
                r["scenario"] = rng.choice(scm.SCENARIOS)
            rows.append(r)
    if mixed:
        for r in rows:
            r["tag"] = rng.choice(["a", 1, 2.5, "1", None])
        o.cover("mixed metadata")
    rng.shuffle(rows)
    m = scm.Model(rows, ts, scm.matrix(rng, len(rows), len(ts), rng.choice([0, 0, 0.3])))
    for v in m.vals:
        if all(math.isnan(x) for x in v):
            v[rng.randrange(len(v))] = 2.5
    if any(math.isnan(x) for v in m.vals for x in v):
        o.cover("missing values")
    if ref.from_seconds(ts[0]).year < 1677:
        o.cover("before 1677")
    if ref.from_seconds(ts[-1]).year > 2262:
        o.cover("after 2262")
    return m if m.unique() else None


def statistics(rng, o):
    m = build(rng, o)
    if m is None:
        return
    f = m.build()
    before = scm.read(o, f)
    n = rng.choice([1, 1, 2, 3, len(m.cols) - 1])
    over = rng.sample(m.cols, min(n, len(m.cols) - 1))
    if rng.random() < 0.5 and "run" not in over and len(over) < len(m.cols) - 1:
        over.append("run")
    nested = [c for c in m.cols if any(c != d and d in c for d in m.cols)]
    if nested and rng.random() < 0.4:
        over = [rng.choice(nested)]
    group = [c for c in m.cols if c not in over]
    if rng.random() < 0.15:
        over.append("not there")
        o.cover("column not there")
    if len(over) == 1 and rng.random() < 0.6:
        arg = over[0]
        o.cover("str")
        if arg in nested:
            o.cover("name contains another")
    else:
        k = rng.choice([list, list, tuple])
        arg = k(over)
        o.cover("list" if k is list else "tuple")
    if len(over) > 1:
        o.cover("several columns")
    op = rng.choice(["mean", "median", "quantile", "quantile"])
    kw, q, how = {}, 0.5, "linear"
    if op == "quantile":
        if rng.random() < 0.85:
            q = rng.choice([0, 1, 0.5, 0.05, 0.17, 0.83, 0.95, 0.25, 1 / 3, round(rng.random(), 3)])
            kw["q"] = q
            if q in (0, 1):
                o.cover("quantile 0 or 1")
        else:
            o.cover("default quantile")
        if rng.random() < 0.3:
            how = rng.choice(["lower", "higher", "midpoint", "linear"])
            kw["interpolation"] = how
            o.cover("quantile interpolation")
    o.cover(op)
    groups = {}
    for i in range(len(m.rows)):
        groups.setdefault(m.key(i, group), []).append(i)
    if how in ("lower", "higher"):
        # rounding decides where the position is almost a whole number
        for g in groups.values():
            for j in range(len(m.times)):
                p = q * (sum(not math.isnan(m.vals[i][j]) for i in g) - 1)
                if abs(p - round(p)) < 1e-9 and p != round(p):
                    return
    o.event("process_over", "{} {} {} -> {} groups of {}", arg, op, kw, len(groups), len(m.rows))
    res = o.returns("process_over", f.process_over, arg, op, **kw)
    o.check(isinstance(res, pd.DataFrame), "type of the result")
    o.eq(sorted(map(str, res.index.names)), sorted(group), "labels of the result")
    got = scm.read_table(res)
    o.eq(got.times, m.times, "time points of the result")
    gk = got.keys(group)
    o.eq(sorted(gk), sorted(groups), "groups of the result")
    for i, k in enumerate(gk):
        members = groups[k]
        for j in range(len(m.times)):
            xs = [m.vals[a][j] for a in members]
            exp = stat(op, xs, q, how)
            real = [abs(x) for x in xs if not math.isnan(x)]
            o.close(got.vals[i][j], exp, "value of a group", rtol=1e-11, atol=1e-12 * max(real, default=0), op=op, kw=kw, members=xs)
            if not real:
                o.cover("all values missing at a time")
    scm.compare(o, scm.read(o, f), before, "frame after process_over", order=True)
    o.cover("source unchanged")
    sizes = {len(g) for g in groups.values()}
    o.state(op, len(groups), tuple(sorted(sizes))[-1], len(group))
    if 1 in sizes:
        o.cover("groups of one")
    if any(s > 1 and s % 2 for s in sizes):
        o.cover("odd group")
    if any(s % 2 == 0 for s in sizes):
        o.cover("even group")
    if len(groups) == 1:
        o.cover("one group")
    if len(group) == 1:
        o.cover("single group column")
    if any(v == (0, "") for k in groups for _, v in k):
        o.cover("missing metadata in a group")
    if any(v[0] == 2 for k in groups for _, v in k):
        o.cover("numeric metadata")
    if any(b - a > 1 for g in groups.values() for a, b in zip(g, g[1:])):
        o.cover("interleaved groups")
    if len(groups) > 1 and max(sizes) > 1:
        o.nontrivial()
    if rng.random() < 0.3:
        o.raises(ValueError, "unknown operation", f.process_over, arg, rng.choice(["sum", "std", "Mean", "", "max", "count"]))
        o.cover("unknown operation")
        scm.compare(o, scm.read(o, f), before, "frame after a refused process_over", order=True)


def ends(v):
    """first and last value of a filter"""
    if isinstance(v, (str, int)):
        return [v]
    v = list(v)
    return [v[0], v[-1]]


def reference(rng, o):
    m = build(rng, o)
    if m is None:
        return
    dts = m.datetimes()
    years = sorted({d.year for d in dts})
    f = m.build()
    before = scm.read(o, f)
    rows = set(range(len(m.rows)))
    k = rng.choice(["range", "range", "list", "month", "other", "single", "set", "text"])
    if k == "range":
        a, b = sorted((rng.choice(years), rng.choice(years)))
        if b - a > 5000:
            b = a
        kw = {"year": range(a, b + 1)}
        cols = [j for j, d in enumerate(dts) if a <= d.year <= b]
        o.cover("reference year range")
    elif k == "list":
        ys = sorted({rng.choice(years) for _ in range(rng.randint(1, 3))})
        kw = {"year": ys}
        cols = [j for j, d in enumerate(dts) if d.year in ys]
        o.cover("reference year list")
    elif k in ("single", "set"):
        y = rng.choice(years)
        kw = {"year": y if k == "single" else {y}}
        cols = [j for j, d in enumerate(dts) if d.year == y]
        if rng.random() < 0.3:
            mo = rng.choice([dts[j].month for j in cols])
            kw["month"] = mo if k == "single" else (mo,)
            cols = [j for j in cols if dts[j].month == mo]
        o.cover("reference single value")
    elif k == "text":
        v = rng.choice(m.rows)["variable"]
        y = rng.choice(years)
        kw = {"variable": v, "year": y}
        rows = {i for i in rows if selects(m.rows[i], "variable", v)}
        cols = [j for j, d in enumerate(dts) if d.year == y]
        o.cover("reference text filter")
    elif k == "month":
        ms = sorted({rng.choice(dts).month for _ in range(2)})
        kw = {"month": ms}
        cols = [j for j, d in enumerate(dts) if d.month in ms]
        o.cover("reference month")
    else:
        v = rng.choice(m.rows)["variable"]
        y = rng.choice(years)
        kw = {"year": [y], "variable": [v]}
        rows = {i for i in rows if selects(m.rows[i], "variable", v)}
        cols = [j for j, d in enumerate(dts) if d.year == y]
        o.cover("reference other filter")
    means = []
    for i, v in enumerate(m.vals):
        xs = [v[j] for j in cols if not math.isnan(v[j])] if i in rows else []
        means.append(stat("mean", xs))
        if not xs:
            o.cover("series outside reference")
        elif len(xs) < len(cols):
            o.cover("missing in reference")
    if all(math.isnan(x) for x in means):
        return
    if rng.random() < 0.5:
        suffix = rng.choice(["rel. to start", "x", "(1850-1900)", ""])
        res = o.returns("relative_to_ref_period_mean", f.relative_to_ref_period_mean, append_str=suffix, **kw)
        o.cover("suffix given")
    else:
        suffix = None
        res = o.returns("relative_to_ref_period_mean", f.relative_to_ref_period_mean, **kw)
        o.cover("suffix made")
    o.event("relative_to_ref_period_mean", "{} {} times, {} in the period", kw, len(dts), len(cols))
    got = scm.read_table(res)
    o.eq(got.times, m.times, "time points of the result")
    o.eq(list(res.index.names), before.cols, "metadata columns of the result")
    o.eq(len(got.rows), len(m.rows), "number of timeseries")
    exp = m.copy()
    tol = []
    for i, r in enumerate(exp.rows):
        new = got.rows[i]["variable"]
        if suffix is None:
            o.check(isinstance(new, str) and new.startswith(r["variable"] + " ") and all(str(x) in new and c in new for c, v in kw.items() for x in ends(v)), "suffix of the variable", observed=new, variable=r["variable"])
            r["variable"] = new
        else:
            r["variable"] = "{} {}".format(r["variable"], suffix)
        big = max([abs(x) for x in m.vals[i] if not math.isnan(x)])
        tol.append([1e-12 * big] * len(dts))
        exp.vals[i] = [x - means[i] for x in m.vals[i]]
    scm.compare(o, got, exp, "relative to the reference period", order=True, atol=tol, period=kw)
    scm.compare(o, scm.read(o, f), before, "frame after relative_to_ref_period_mean", order=True)
    o.cover("source unchanged")
    if any(r.get(c) is None for r in m.rows for c in m.cols):
        o.cover("missing metadata in reference")
    if len(m.rows) == 1:
        o.cover("single timeseries")
    if len(m.rows) > 1 and 0 < len(cols) < len(dts):
        o.nontrivial()
    o.state(k, len(m.rows), len(cols))


FAMILIES = [Family("statistics", statistics, 260, 5000), Family("reference", reference, 200, 4000)]
FAMILIES += [
    Family("large statistics", gen.large(statistics), 17, 250),
    Family("large reference", gen.large(reference), 13, 200),
]
