import math
import os
import shutil
import tempfile
import warnings

import numpy as np
import pandas as pd

from openscm.scmdataframe import ScmDataFrame, df_append
from openscm.scmdataframe.base import ScmDataFrameBase

from mon import gen, ref, scm
from mon.core import Family

RULE = (
    "a case appends 1-5 random frames with overlapping and different timeseries, times and metadata columns, in random order and form; the union of the recorded input "
    "points (averaged where several non-missing values share metadata and time) is compared with the result, as is the occurrence of the warning; non-trivial: at least "
    "two inputs share a time point or timeseries"
)
COVER = [
    "append", "df_append", "one input", "two inputs", "many inputs", "disjoint", "true duplicates", "three contributors", "missing contributor", "shared without duplicates",
    "different columns", "missing metadata", "text column absent", "number column absent", "warned", "not warned", "silenced", "return", "return without duplicates", "inplace",
    "inplace df_append", "other as table", "other as array", "other as csv", "subclass", "before 1677", "after 2262", "interleaved times", "empty input", "-999 in metadata",
    "chained", "bad option refused", "inplace refused", "same frame twice", "same object twice", "duplicates with missing metadata",
]
ASSUMPTIONS = [
    "every input has a value in each of its timeseries and unique metadata; not all inputs are empty",
    "in the unmerged table of duplicate_msg='return' missing metadata may be shown by a fill value",
]
TECHNIQUE = "offline checker over recorded input and output points: union, conservation and averaging; warning events checked against the exact duplicate condition"


def family_of(rng, o, k):
    """k models over a shared pool of timeseries and times"""
    shared_times = scm.times(rng, n=rng.randint(2, 9))
    names = rng.sample(sorted(scm.EXTRA), rng.choice([0, 1, 1, 2]))
    pool = scm.metadata(rng, rng.randint(1, 5), extra=names, missing=rng.choice([0, 0, 0.4]))
    out = []
    for i in range(k):
        n = rng.randint(1, len(pool))
        rows = [dict(r) for r in rng.sample(pool, n)]
        if rng.random() < 0.4:  # other metadata columns
            if names and rng.random() < 0.5:
                gone = rng.choice(names)
                for r in rows:
                    r.pop(gone, None)
                o.cover("number column absent" if gone in ("ecs", "run", "depth (m)") else "text column absent")
            else:
                new = rng.choice([c for c in sorted(scm.EXTRA) if c not in names] or ["other"])
                for r in rows:
                    r[new] = rng.choice(scm.EXTRA.get(new, ["a", "b"]))
            o.cover("different columns")
        if rng.random() < 0.3:
            for r in rows:
                r["scenario"] = "only{}".format(i)
        seen, keep = set(), []
        for r in rows:
            key = tuple(sorted((c, scm.typed(v)) for c, v in r.items()))
            if key not in seen:
                seen.add(key)
                keep.append(r)
        kind = rng.choice([0, 0, 1, 1, 2, 3])
        if kind == 0:
            ts = list(shared_times)
        elif kind == 1:
            ts = sorted(rng.sample(shared_times, rng.randint(1, len(shared_times))))
        elif kind == 2:
            ts = sorted(set(rng.sample(shared_times, rng.randint(1, len(shared_times)))) | {t + 1 + rng.randrange(86400) for t in rng.sample(shared_times, 1)})
            o.cover("interleaved times")
        else:
            ts = scm.times(rng, n=rng.randint(1, 5))
        vals = scm.matrix(rng, len(keep), len(ts), rng.choice([0, 0.3, 0.6]))
        for v in vals:
            if all(math.isnan(x) for x in v):
                v[rng.randrange(len(v))] = rng.gauss(0, 10)
        out.append(scm.Model(keep, ts, vals))
    return out


def union(ms):
    """-> (Model of the union, number of points with more than one non-missing contributor)"""
    cols = []
    for m in ms:
        cols += [c for c in m.cols if c not in cols]
    times = sorted({t for m in ms for t in m.times})
    at = {t: j for j, t in enumerate(times)}
    order, rows, cells = [], {}, {}
    for m in ms:
        for i, r in enumerate(m.rows):
            k = m.key(i, cols)
            if k not in rows:
                rows[k] = {c: scm.norm(r.get(c)) for c in cols}
                order.append(k)
            for t, x in zip(m.times, m.vals[i]):
                if not math.isnan(x):
                    cells.setdefault((k, at[t]), []).append(x)
    vals, dup, most = [], 0, 0
    for k in order:
        v = []
        for j in range(len(times)):
            xs = cells.get((k, j), [])
            most = max(most, len(xs))
            dup += len(xs) > 1
            v.append(math.fsum(xs) / len(xs) if xs else float("nan"))
        vals.append(v)
    return scm.Model([rows[k] for k in order], times, vals), dup, most, cells


def look(o, ms, exp, dup, most, cells):
    o.event("union", "inputs {} rows {} times {} duplicates {} contributors {}", [len(m.rows) for m in ms], len(exp.rows), len(exp.times), dup, most)
    if dup:
        o.cover("true duplicates")
        if any(len(xs) > 1 and any(t[1][0] == 0 for t in k) for (k, _), xs in cells.items()):
            o.cover("duplicates with missing metadata")
    if most > 2:
        o.cover("three contributors")
    if len(exp.rows) == sum(len(m.rows) for m in ms):
        o.cover("disjoint")
    elif not dup:
        o.cover("shared without duplicates")
    else:
        o.nontrivial()
    if not dup and len(exp.times) < sum(len(m.times) for m in ms):
        o.nontrivial()
    if any(math.isnan(x) for m in ms for v in m.vals for x in v) and dup:
        o.cover("missing contributor")
    if any(r.get(c) is None for r in exp.rows for c in exp.cols):
        o.cover("missing metadata")
    if any(r.get(c) in (-999, "-999") for r in exp.rows for c in exp.cols):
        o.cover("-999 in metadata")
    ys = [ref.from_seconds(t).year for t in exp.times]
    if min(ys) < 1677:
        o.cover("before 1677")
    if max(ys) > 2262:
        o.cover("after 2262")
    o.cover({1: "one input", 2: "two inputs"}.get(len(ms), "many inputs"))
    o.state(len(ms), len(exp.rows), bool(dup))


DUP = "Duplicate time points detected"


def watched(o, label, fn, *a, **k):
    """-> result, number of duplicate warnings"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        res = o.call(label, fn, *a, **k)
    return res, sum(DUP in str(x.message) for x in w)


class Sub(ScmDataFrameBase):
    pass


def as_other(rng, o, m, d):
    """the model in one of the forms which are cast -> (object, options for append)"""
    k = rng.randrange(6)
    if k == 0:
        df = pd.DataFrame({c: [r.get(c) for r in m.rows] for c in m.cols})
        for j, t in enumerate(m.datetimes()):
            df[t] = [v[j] for v in m.vals]
        o.cover("other as table")
        return df, {}
    if k == 1:
        o.cover("other as array")
        return np.array(m.vals, dtype=float).T.copy(), {"index": m.datetimes(), "columns": {c: [r.get(c) for r in m.rows] for c in m.cols}}
    if k == 2 and not any(r.get(c) in ("", "nan", "None", "-999") for r in m.rows for c in m.cols):
        df = pd.DataFrame({c: [r.get(c) for r in m.rows] for c in m.cols})
        for j, t in enumerate(m.datetimes()):
            df["{:04d}-{:02d}-{:02d} {:02d}:{:02d}:{:02d}".format(t.year, t.month, t.day, t.hour, t.minute, t.second)] = [v[j] for v in m.vals]
        path = os.path.join(d, "other.csv")
        df.to_csv(path, index=False)
        o.cover("other as csv")
        return path, {}
    return m.build(rng.choice([ScmDataFrame, Sub])), {}


def unchanged(o, frames, ms, what):
    for f, m in zip(frames, ms):
        if isinstance(f, ScmDataFrameBase):
            scm.compare(o, scm.read(o, f), m, what + ": input", order=True)


def append(rng, o):
    d = tempfile.mkdtemp(prefix="verif-s05-")
    try:
        ms = family_of(rng, o, 2)
        exp, dup, most, cells = union(ms)
        look(o, ms, exp, dup, most, cells)
        cls = rng.choice([ScmDataFrame, ScmDataFrame, Sub])
        a = ms[0].build(cls)
        b, options = as_other(rng, o, ms[1], d)
        if cls is Sub:
            o.cover("subclass")
        inplace = rng.random() < 0.35
        if inplace:
            options["inplace"] = True
            o.cover("inplace")
        if rng.random() < 0.25:
            options["duplicate_msg"] = False
        o.event("append", "{} {}", [len(m.rows) for m in ms], sorted(options))
        before = b.copy() if isinstance(b, (pd.DataFrame, np.ndarray)) else None
        res, warned = watched(o, "append", a.append, b, **options)
        o.cover("append")
        if options.get("duplicate_msg") is False:
            o.eq(warned, 0, "silenced warning")
            o.cover("silenced")
        else:
            o.eq(warned > 0, dup > 0, "duplicate warning", duplicates=dup)
            o.cover("warned" if dup else "not warned")
        if inplace:
            o.check(res is None, "inplace returns something")
            res = a
        o.check(type(res) is cls, "type of the result", observed=type(res))
        scm.compare(o, scm.read(o, res), exp, "appended frame", rtol=1e-11, atol=1e-300, inplace=inplace)
        if not inplace:
            unchanged(o, [a], [ms[0]], "append")
        unchanged(o, [b], [ms[1]], "append")
        if before is not None:
            o.check(np.array_equal(before, b, equal_nan=True) if isinstance(b, np.ndarray) else before.equals(b), "input changed")
        if rng.random() < 0.3 and not inplace:
            more = family_of(rng, o, 1)[0]
            exp2, dup2, _, _ = union([exp, more])
            res2, warned = watched(o, "append again", res.append, more.build())
            scm.compare(o, scm.read(o, res2), exp2, "appended again", rtol=1e-11, atol=1e-300)
            o.eq(warned > 0, dup2 > 0, "duplicate warning of the second append")
            o.cover("chained")
    finally:
        shutil.rmtree(d)


def many(rng, o):
    k = rng.choice([1, 2, 3, 3, 4, 5])
    ms = family_of(rng, o, k)
    again = rng.random() < 0.2
    if again:
        ms.append(ms[0].copy())
        o.cover("same frame twice")
    frames = [m.build(rng.choice([ScmDataFrame, Sub])) for m in ms]
    again = again and rng.random() < 0.5
    if again:  # the very same object
        frames[-1] = frames[0]
        o.cover("same object twice")
    if len(ms) > len(frames) - 1 and rng.random() < 0.3 and k > 1:
        e = frames[0].filter(region="there is no such region")
        at = rng.randint(1, len(frames))
        frames.insert(at, e)
        ms_in = ms[:at] + [None] + ms[at:]
        o.cover("empty input")
    else:
        ms_in = list(ms)
    exp, dup, most, cells = union(ms)
    look(o, ms, exp, dup, most, cells)
    if rng.random() < 0.5:
        perm = list(range(len(frames)))
        rng.shuffle(perm)
        if ms_in[perm[0]] is not None:
            frames, ms_in = [frames[i] for i in perm], [ms_in[i] for i in perm]
    inplace = rng.random() < 0.3
    if again and inplace and any(f is frames[0] for f in frames[1:]):
        ms_in = [None if f is frames[0] else m for f, m in zip(frames, ms_in)]
    args = list(frames)
    res, warned = watched(o, "df_append", df_append, args, **({"inplace": True} if inplace else {}))
    o.check(len(args) == len(frames) and all(x is y for x, y in zip(args, frames)), "list of inputs changed")
    o.cover("df_append")
    o.eq(warned > 0, dup > 0, "duplicate warning", duplicates=dup, inputs=len(frames))
    o.cover("warned" if dup else "not warned")
    if inplace:
        o.cover("inplace df_append")
        o.check(res is None, "inplace returns something")
        res = frames[0]
    else:
        o.check(type(res) is type(frames[0]), "type of the result")
    scm.compare(o, scm.read(o, res), exp, "df_append", rtol=1e-11, atol=1e-300)
    for i, (f, m) in enumerate(zip(frames, ms_in)):
        if m is not None and not (inplace and i == 0):
            scm.compare(o, scm.read(o, f), m, "df_append: input", order=True)


def returned(rng, o):
    """duplicate_msg='return' gives all the values as they came"""
    ms = family_of(rng, o, rng.choice([2, 2, 3]))
    exp, dup, most, cells = union(ms)
    frames = [m.build() for m in ms]
    res, warned = watched(o, "df_append return", df_append, frames, duplicate_msg="return")
    if not dup:
        o.cover("return without duplicates")
        scm.compare(o, scm.read(o, res), exp, "without duplicates", rtol=1e-11, atol=1e-300)
        return
    o.cover("return")
    o.nontrivial()
    o.check(isinstance(res, pd.DataFrame), "not a table", type=type(res))
    o.eq(len(res), sum(len(m.rows) for m in ms), "rows of the unmerged table")
    o.eq(sorted(scm.seconds(t) for t in res.columns), exp.times, "times of the unmerged table")
    names = list(res.index.names)
    at = [scm.seconds(t) for t in res.columns]
    got, want = [], []
    cols = exp.cols
    o.eq(sorted(names), sorted(cols), "metadata of the unmerged table")
    holes = {c for m in ms for r in m.rows for c in cols if scm.norm(r.get(c)) is None}
    for k, v in zip(res.index, res.values.tolist()):
        row = dict(zip(names, k))
        got.append((tuple(scm.typed(row[c]) for c in cols if c not in holes), tuple(sorted((t, x) for t, x in zip(at, v) if not math.isnan(x)))))
    for m in ms:
        for r, v in zip(m.rows, m.vals):
            want.append((tuple(scm.typed(r.get(c)) for c in cols if c not in holes), tuple(sorted((t, x) for t, x in zip(m.times, v) if not math.isnan(x)))))
    o.check(sorted(got) == sorted(want), "unmerged table", observed=sorted(got)[:3], expected=sorted(want)[:3])
    unchanged(o, frames, ms, "return")


def refused(rng, o):
    ms = family_of(rng, o, 2)
    ms[1] = ms[0].copy() if rng.random() < 0.6 else ms[1]
    frames = [m.build() for m in ms]
    _, dup, _, _ = union(ms)
    if dup:
        for bad in ("typo", True, 3):
            o.raises(ValueError, "unknown duplicate_msg", frames[0].append, frames[1], duplicate_msg=bad, inplace=rng.random() < 0.5)
        o.cover("bad option refused")
    df = pd.DataFrame({c: [r.get(c) for r in ms[0].rows] for c in ms[0].cols})
    for j, t in enumerate(ms[0].datetimes()):
        df[t] = [v[j] for v in ms[0].vals]
    old = df.copy()
    o.raises(TypeError, "inplace into a table", df_append, [df, frames[1]], inplace=True)
    o.check(df.equals(old), "table changed")
    o.cover("inplace refused")
    unchanged(o, frames, ms, "refused append")


FAMILIES = [
    Family("append", append, 120, 1800),
    Family("many", many, 90, 1300),
    Family("returned", returned, 40, 500),
    Family("refused", refused, 20, 250),
]
FAMILIES += [
    Family("large append", gen.large(append), 8, 90),
    Family("large many", gen.large(many), 6, 65),
]
