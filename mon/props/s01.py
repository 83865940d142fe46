import datetime
import math
import os
import random as _random
import shutil
import tempfile

import numpy as np
import pandas as pd

from openscm.scmdataframe import ScmDataFrame
from openscm.scmdataframe.base import ScmDataFrameBase

from mon import gen, ref, scm
from mon.core import Family

RULE = (
    "a case is a random set of timeseries (metadata with extra and missing entries, years 1-9998, missing values) handed over in a random accepted format; the "
    "frame is compared with the model point by point, the input is compared with a copy taken before, and both are changed afterwards to see aliasing; "
    "non-trivial: at least two timeseries and two time points in a shuffled or reformatted table"
)
COVER = [
    "wide", "long", "wide index", "long index", "years int", "years str", "datetime columns", "date strings", "shuffled rows", "shuffled columns", "letter case",
    "array", "frame with columns", "series with columns", "another ScmDataFrame", "pyam", "csv wide", "csv long", "csv nearly numbers", "extra metadata", "missing metadata", "missing values",
    "single timeseries", "single time point", "before 1677", "after 2262", "unsorted times", "input changed later", "frame changed later", "missing column refused",
    "no time refused", "bad input refused", "repeated labels", "subclass", "years of different length", "unequal time cells", "pd.Series", "xyz dtype float year", "metadata as arrays", "dates in words", "time labels of several types", "metadata as series with other labels",
]
ASSUMPTIONS = [
    "names of extra metadata columns do not read as numbers or dates (the format is told apart by that)",
    "text which pandas.read_csv takes for missing ('', 'nan', 'None') is not used in CSV files",
]
TECHNIQUE = "construction events compared with an independent model, with alias probes (mutating input and frame afterwards)"


def case_name(rng, c):
    return rng.choice([c.upper(), c.title(), c.capitalize(), c])


def headers(rng, o, times, mixed=True):
    """-> (labels for times, name of the style)"""
    dts = [ref.from_seconds(t) for t in times]
    styles = ["datetime", "datetime", "string", "day string"]
    if all((d.month, d.day, d.hour, d.minute, d.second) == (1, 1, 0, 0, 0) for d in dts):
        styles += ["int", "int", "year string", "float"]
    if not all((d.hour, d.minute, d.second) == (0, 0, 0) for d in dts):
        styles.remove("day string")
    s = rng.choice(styles + ["mixed"] * mixed)
    if s == "mixed":
        out = []
        for d in dts:
            whole = (d.month, d.day, d.hour, d.minute, d.second) == (1, 1, 0, 0, 0)
            out.append(rng.choice([lambda: d.year, lambda: float(d.year), lambda: d] if whole else [lambda: d])())
        if len({type(x) for x in out}) > 1:
            o.cover("time labels of several types")
        return out, s
    if s == "int":
        o.cover("years int")
        return [d.year for d in dts], s
    if s == "float":
        o.cover("xyz dtype float year")
        return [float(d.year) for d in dts], s
    if s == "year string":
        o.cover("years str")
        if len({len(str(d.year)) for d in dts}) > 1:
            o.cover("years of different length")
        return [str(d.year) for d in dts], s
    if s == "datetime":
        o.cover("datetime columns")
        return dts, s
    o.cover("date strings")
    if s == "day string":
        if rng.random() < 0.3 and all(d.year > 99 for d in dts):  # dateutil reads years below 100 spelled in words as two-digit years
            # spelled in words
            o.cover("dates in words")
            month = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]
            form = rng.choice(["{m} {d}, {y:04d}", "{d} {m} {y:04d}", "{d:02d}-{b}-{y:04d}"])
            return [form.format(m=month[d.month - 1], b=month[d.month - 1][:3], d=d.day, y=d.year) for d in dts], s
        return ["{:04d}-{:02d}-{:02d}".format(d.year, d.month, d.day) for d in dts], s
    return ["{:04d}-{:02d}-{:02d} {:02d}:{:02d}:{:02d}".format(d.year, d.month, d.day, d.hour, d.minute, d.second) for d in dts], s


def observe(o, m):
    ys = [ref.from_seconds(t).year for t in m.times]
    if min(ys) < 1677:
        o.cover("before 1677")
    if max(ys) > 2262:
        o.cover("after 2262")
    if len(m.times) == 1:
        o.cover("single time point")
    if len(m.rows) == 1:
        o.cover("single timeseries")
    if len(m.cols) > 5:
        o.cover("extra metadata")
    if any(r.get(c) is None for r in m.rows for c in m.cols):
        o.cover("missing metadata")
    if any(math.isnan(x) for v in m.vals for x in v):
        o.cover("missing values")
    if len(m.rows) > 1 and len(m.times) > 1:
        o.nontrivial()
    o.state(len(m.rows), len(m.times), tuple(m.cols))


def wide(rng, o, m, index=None):
    """a wide table of the model"""
    labels, style = headers(rng, o, m.times, mixed=index is not False)
    data = {}
    for c in m.cols:
        data[c] = [r.get(c) for r in m.rows]
    df = pd.DataFrame(data)
    for j, l in enumerate(labels):
        df[l] = [v[j] for v in m.vals]
    order = list(df.columns)
    if rng.random() < 0.6:
        rng.shuffle(order)
        o.cover("shuffled columns")
    df = pd.DataFrame({i: df[c].values for i, c in enumerate(order)})
    df.columns = pd.Index(order, dtype=object) if style != "int" or any(isinstance(c, str) for c in order) else order
    if rng.random() < 0.6 and len(df) > 1:
        perm = list(range(len(df)))
        rng.shuffle(perm)
        df = df.iloc[perm]
        if rng.random() < 0.5:
            df.index = range(len(df))
        o.cover("shuffled rows")
    if rng.random() < 0.4:
        df.columns = [case_name(rng, c) if c in m.cols else c for c in df.columns]
        o.cover("letter case")
    metas = [c for c in df.columns if isinstance(c, str) and c.lower() in m.cols]
    if index or (index is None and rng.random() < 0.35):
        keys = rng.sample(metas, rng.randint(1, len(metas)))
        if len(keys) == len(metas) or rng.random() < 0.7:
            # names in an index are used as they are
            df = df.rename(columns={c: c.lower() for c in keys})
            df = df.set_index([c.lower() for c in keys])
            o.cover("wide index")
    elif rng.random() < 0.2 and len(df) > 1:
        df.index = [rng.randint(0, 1) for _ in range(len(df))]
        o.cover("repeated labels")
    o.cover("wide")
    return df


def long(rng, o, m):
    labels, style = headers(rng, o, m.times, mixed=False)
    tcol = "year" if style in ("int", "year string") and rng.random() < 0.7 else "time"
    recs = []
    for r, v in zip(m.rows, m.vals):
        for l, x in zip(labels, v):
            if not math.isnan(x) or rng.random() < 0.3:
                recs.append(dict({c: r.get(c) for c in m.cols}, value=x, **{tcol: l}))
            else:
                o.cover("unequal time cells")
    if rng.random() < 0.7:
        rng.shuffle(recs)
        o.cover("shuffled rows")
    order = m.cols + ["value", tcol]
    if rng.random() < 0.6:
        rng.shuffle(order)
        o.cover("shuffled columns")
    df = pd.DataFrame(recs)[order]
    if style == "datetime":
        df[tcol] = pd.Series([r[tcol] for r in recs], dtype=object)
        if all(1700 < ref.from_seconds(t).year < 2250 for t in m.times) and rng.random() < 0.5:
            df[tcol] = pd.to_datetime(df[tcol])
    if rng.random() < 0.4:
        df.columns = [case_name(rng, c) for c in df.columns]
        o.cover("letter case")
    elif rng.random() < 0.3:
        df = df.set_index(rng.sample([c for c in m.cols], rng.randint(1, len(m.cols))))
        o.cover("long index")
    o.cover("long")
    return df


def snapshot(df):
    return df.copy(deep=True), list(df.index.names), df.index.copy(deep=True), list(df.columns), list(df.columns.names)


def unchanged(o, df, snap, msg):
    old, inames, idx, cols, cnames = snap
    o.check(list(df.index.names) == inames and list(df.columns) == cols and list(df.columns.names) == cnames and df.index.equals(idx), msg + ": labels", now=df, before=old)
    o.check(df.equals(old), msg + ": content", now=df, before=old)


def alias(rng, o, f, m, exp, df, order=False):
    """changing the input leaves the frame alone and the other way round"""
    before = scm.read(o, f)
    scm.compare(o, before, exp, "constructed frame", order=order)
    snap = snapshot(df)
    if rng.random() < 0.5:
        o.cover("input changed later")
        for i in range(len(df.columns)):
            if df.dtypes.iloc[i] == float or df.dtypes.iloc[i] == int:
                df.iloc[:, i] = 777
        try:
            df.values[:] = 555
        except Exception:  # noqa  read-only or converted copy
            pass
        if len(df.columns) > 1:
            df.drop(columns=df.columns[0], inplace=True)
        df.index.name = "gone"
        scm.compare(o, scm.read(o, f), before, "frame after the input was changed", order=True)
    else:
        o.cover("frame changed later")
        mutate(rng, f)
        unchanged(o, df, snap, "input after the frame was changed")


def mutate(rng, f):
    f.set_meta("changed", "scenario")
    f["newcol"] = 3
    f["time"] = [datetime.datetime(1950, 1, 1) + datetime.timedelta(days=i) for i in range(len(f.time_points))]
    f._data.iloc[:, :] = -1.0


def tables(rng, o):
    m = scm.model(rng, nan=rng.choice([0, 0, 0.3]))
    observe(o, m)
    kind = rng.choice(["wide", "long"])
    df = wide(rng, o, m) if kind == "wide" else long(rng, o, m)
    snap = snapshot(df)
    o.event("build", "{} {} {}", kind, [str(c) for c in df.columns][:12], list(df.index.names))
    f = o.returns("ScmDataFrame({} table)".format(kind), ScmDataFrame, df)
    unchanged(o, df, snap, "input table changed by the constructor")
    exp = m.compact() if kind == "long" else m
    if m.times != sorted(m.times):
        o.fail("harness: times must be sorted")
    alias(rng, o, f, m, exp, df)


def unsorted(rng, o):
    """tables whose time columns or rows come in any order are sorted"""
    m = scm.model(rng, times_=scm.times(rng, n=rng.randint(3, 8)))
    observe(o, m)
    o.cover("unsorted times")
    labels, style = headers(rng, o, m.times)
    perm = list(range(len(labels)))
    rng.shuffle(perm)
    df = pd.DataFrame({c: [r.get(c) for r in m.rows] for c in m.cols})
    for j in perm:
        df[labels[j]] = [v[j] for v in m.vals]
    o.event("build", "{} {}", style, [str(labels[j]) for j in perm])
    f = o.returns("ScmDataFrame", ScmDataFrame, df)
    alias(rng, o, f, m, m, df)


def index_of(labels, style):
    """pandas itself refuses np.datetime64 labels outside the range of its timestamps"""
    if style == "datetime":
        return pd.Index([ref.from_seconds(scm.seconds(x)) for x in labels], dtype=object)
    return pd.Index(labels)


def as_list(v):
    return list(v) if isinstance(v, (list, tuple, np.ndarray, pd.Series, pd.Index)) else [v]


def one_of(rng, o, vs):
    """metadata values as some sequence"""
    k = rng.randrange(5)
    plain = len({type(v) for v in vs}) == 1 and isinstance(vs[0], (str, float))
    if k < 2:
        return [list, tuple][k](vs)
    o.cover("metadata as arrays")
    a = np.array(vs, dtype=None if plain and rng.random() < 0.5 else object)
    if k == 2:
        return a
    if k == 3:
        o.cover("metadata as series with other labels")
        return pd.Series(a, index=rng.choice([None, list(range(5, 5 + len(vs))), ["i%d" % i for i in range(len(vs))]]))
    return pd.Index(a, name="labels")


def arrays(rng, o):
    """values with a columns dict: nothing is sorted or reordered"""
    m = scm.model(rng)
    if rng.random() < 0.5 and len(m.times) > 1:
        perm = list(range(len(m.times)))
        rng.shuffle(perm)
        m = scm.Model(m.rows, [m.times[i] for i in perm], [[v[i] for i in perm] for v in m.vals])
        o.cover("unsorted times")
    observe(o, m)
    labels, style = headers(rng, o, m.times)
    if style == "datetime" and rng.random() < 0.5:
        labels = gen.as_dt64(m.times)
    n = len(m.rows)
    cols = {}
    for c in m.cols:
        vs = [r.get(c) for r in m.rows]
        if len({scm.typed(v) for v in vs}) == 1 and rng.random() < 0.6:
            cols[c] = rng.choice([[vs[0]], vs[0], one_of(rng, o, vs[:1])])
        else:
            cols[c] = one_of(rng, o, vs)
    cols = dict(sorted(cols.items(), key=lambda kv: rng.random()))
    cols_before = {k: as_list(v) for k, v in cols.items()}
    vals = np.array(m.vals, dtype=float).T.copy()
    k = rng.randrange(4)
    if k == 0 and n == 1:
        data = pd.Series(vals[:, 0].copy(), index=index_of(labels, style))
        o.cover("series with columns")
        o.cover("pd.Series")
        f = o.returns("ScmDataFrame(Series, columns)", ScmDataFrame, data, columns=cols)
        old = data.copy()
        data.iloc[:] = 99.0
        scm.compare(o, scm.read(o, f), m, "frame from a series", order=True)
        mutate(rng, f)
        o.check((data == 99.0).all() and list(data.index) == list(old.index) and data.index.name == old.index.name, "series changed", now=data)
    elif k in (1, 2):
        data = pd.DataFrame(vals.copy())
        if k == 1:
            data.index = index_of(labels, style)
            idx = None
        else:
            idx = rng.choice([labels, list(labels), np.array(list(labels), dtype=object) if style == "datetime" else np.array(labels), index_of(labels, style)])
        if rng.random() < 0.3:
            data.columns = [rng.choice("ab") for _ in range(n)]
            o.cover("repeated labels")
        o.cover("frame with columns")
        snap = snapshot(data)
        f = o.returns("ScmDataFrame(DataFrame, columns)", ScmDataFrame, data, index=idx, columns=cols)
        unchanged(o, data, snap, "input changed by the constructor")
        if isinstance(idx, pd.Index):
            o.check(idx.name is None, "index changed by the constructor", name=idx.name)
        alias(rng, o, f, m, m, data, order=True)
    else:
        data = vals.copy() if rng.random() < 0.7 else vals.tolist()
        o.cover("array")
        f = o.returns("ScmDataFrame(array, columns)", ScmDataFrame, data, index=rng.choice([labels, list(labels), index_of(labels, style)]), columns=cols)
        scm.compare(o, scm.read(o, f), m, "frame from an array", order=True)
        o.check(np.array_equal(np.asarray(data), vals, equal_nan=True), "array changed by the constructor")
        if isinstance(data, np.ndarray):
            o.cover("input changed later")
            data[:] = 5.0
            scm.compare(o, scm.read(o, f), m, "frame after the array was changed", order=True)
        mutate(rng, f)
        if isinstance(data, np.ndarray):
            o.check((data == 5.0).all(), "array changed through the frame")
    o.check(list(cols) == list(cols_before), "columns dict changed")
    for c in cols:
        o.check([scm.typed(x) for x in as_list(cols[c])] == [scm.typed(x) for x in cols_before[c]], "columns dict changed", column=c)


class Sub(ScmDataFrameBase):
    pass


def frames(rng, o):
    """from another ScmDataFrame, and from pyam"""
    m = scm.model(rng, nan=rng.choice([0, 0.3]))
    src = m.build(rng.choice([ScmDataFrame, Sub]))
    o.cover("subclass")
    cls = rng.choice([ScmDataFrame, Sub])
    f = o.returns("ScmDataFrame(ScmDataFrame)", cls, src)
    o.check(type(f) is cls, "type of the frame")
    o.cover("another ScmDataFrame")
    scm.compare(o, scm.read(o, f), m, "frame from a frame", order=True)
    observe(o, m)
    if rng.random() < 0.5:
        mutate(rng, f)
        scm.compare(o, scm.read(o, src), m, "source after its copy was changed", order=True)
        o.cover("frame changed later")
    else:
        mutate(rng, src)
        scm.compare(o, scm.read(o, f), m, "copy after its source was changed", order=True)
        o.cover("input changed later")


def pyam_frames(rng, o):
    from pyam import IamDataFrame

    ts = [t for t in scm.times(rng, n=rng.randint(2, 6))]
    if not all(1700 < ref.from_seconds(t).year < 2250 for t in ts):
        ts = [gen.year_start(2000 + 3 * i) for i in range(len(ts))]
    m = scm.model(rng, times_=ts, nan=rng.choice([0, 0.3]), missing=0, extra=rng.choice([[], ["run"], ["ecs", "run"], ["climate_model"]]))
    observe(o, m)
    df = pd.DataFrame({c: [r.get(c) for r in m.rows] for c in m.cols})
    annual = all((d.month, d.day, d.hour, d.minute, d.second) == (1, 1, 0, 0, 0) for d in m.datetimes())
    for j, t in enumerate(m.times):
        d = ref.from_seconds(t)
        df[d.year if annual else d] = [v[j] for v in m.vals]
    iam = IamDataFrame(df)
    before = iam.data.copy()
    f = o.returns("ScmDataFrame(IamDataFrame)", ScmDataFrame, iam)
    o.check(iam.data.equals(before), "IamDataFrame changed by the constructor")
    scm.compare(o, scm.read(o, f), m.compact(), "frame from an IamDataFrame")
    mutate(rng, f)
    o.check(iam.data.equals(before), "IamDataFrame changed through the frame")
    o.cover("pyam")


def csv(rng, o):
    m = scm.model(rng, nan=rng.choice([0, 0.3]), missing=rng.choice([0, 0, 0.4]))
    for r in m.rows:
        for c in r:
            if r[c] in ("", "nan", "None", "-999"):
                r[c] = "txt" + str(len(r))
    if rng.random() < 0.5:
        # text which only looks like a number
        few = rng.random() < 0.6
        for r in m.rows:
            r["remark"] = rng.choice(["1,5", "12,345", "1,234.5"] if few else ["1,5", "12,345", "1,234.5", "3;4", "5%", "1 000", "v1.0.0", "0x1g", "2010-20", "#1", "'7'", "1.5.", "+-3"])
        o.cover("csv nearly numbers")
    if not m.unique():
        return
    # a column without any value comes back as numbers: as missing
    observe(o, m)
    kind = rng.choice(["wide", "long"])
    df = wide(rng, o, m, index=False) if kind == "wide" else long(rng, o, m)
    d = tempfile.mkdtemp(prefix="verif-s01-")
    try:
        path = os.path.join(d, "x.csv")
        if any(n is not None for n in df.index.names):
            df = df.reset_index()
        df.to_csv(path, index=False)
        f = o.returns("ScmDataFrame(csv)", ScmDataFrame, path)
        exp = m.compact() if kind == "long" else m
        scm.compare(o, scm.read(o, f), exp, "frame from a CSV file", rtol=1e-12)
        o.cover("csv " + kind)
    finally:
        shutil.rmtree(d)


def refused(rng, o):
    m = scm.model(rng, missing=0, nan=0, times_=scm.times(rng, n=4))
    gone = rng.choice(scm.REQUIRED)
    for kind in ("wide", "long"):
        df = wide(rng, o, m, index=False) if kind == "wide" else long(rng, o, m)
        if any(n is not None for n in df.index.names):
            df = df.reset_index()
        bad = df.drop(columns=[c for c in df.columns if isinstance(c, str) and c.lower() == gone])
        o.raises(ValueError, "{} table without {}".format(kind, gone), ScmDataFrame, bad)
        o.cover("missing column refused")
        if kind == "long":
            t = [c for c in df.columns if c.lower() in ("time", "year")][0]
            o.raises(ValueError, "long table without time", ScmDataFrame, df.drop(columns=[t]))
            both = df.rename(columns={t: "time"})
            both["year"] = 2000
            o.raises(ValueError, "long table with time and year", ScmDataFrame, both)
        else:
            keep = [c for c in df.columns if isinstance(c, str) and c.lower() in m.cols]
            o.raises(ValueError, "wide table without time", ScmDataFrame, df[keep])
        o.cover("no time refused")
    cols = {c: [r.get(c) for r in m.rows] for c in m.cols}
    vals = np.array(m.vals).T
    o.raises(ValueError, "columns without " + gone, ScmDataFrame, vals, index=m.datetimes(), columns={c: v for c, v in cols.items() if c != gone})
    o.raises(ValueError, "column of a wrong length", ScmDataFrame, vals, index=m.datetimes(), columns=dict(cols, **{gone: ["a"] * (len(m.rows) + 2)}))
    o.raises(TypeError, "not data", ScmDataFrame, rng.choice([5, None, {"a": 1}, object()]))
    o.raises(OSError, "no such file", ScmDataFrame, "/nonexistent/verif.csv")
    o.raises(ValueError, "several files", ScmDataFrame, ["a.csv", "b.csv"])
    o.cover("bad input refused")
    scm.compare(o, scm.read(o, m.build()), m, "frame after refusals", order=True)
    o.nontrivial()


def year_lengths(rng, o):
    """years of 1 to 4 digits as text: sorted by time, not by text"""
    ys = sorted(rng.sample(range(1, 99), 2) + rng.sample(range(100, 999), 2) + rng.sample(range(1000, 9998), 2))
    m = scm.model(rng, times_=[gen.year_start(y) for y in ys])
    observe(o, m)
    o.cover("years of different length")
    kind = rng.choice(["wide", "long"])
    order = list(range(len(ys)))
    rng.shuffle(order)
    if kind == "wide":
        df = pd.DataFrame({c: [r.get(c) for r in m.rows] for c in m.cols})
        for j in order:
            df[str(ys[j])] = [v[j] for v in m.vals]
    else:
        df = pd.DataFrame([dict({c: r.get(c) for c in m.cols}, value=v[j], year=str(ys[j])) for j in order for r, v in zip(m.rows, m.vals)])
    o.event("build", "{} {}", kind, [ys[j] for j in order])
    f = o.returns("ScmDataFrame(years as text)", ScmDataFrame, df)
    alias(rng, o, f, m, m.compact() if kind == "long" else m, df)


FAMILIES = [
    Family("years", year_lengths, 20, 300),
    Family("tables", tables, 260, 4000),
    Family("unsorted", unsorted, 60, 900),
    Family("arrays", arrays, 160, 2500),
    Family("frames", frames, 50, 600),
    Family("pyam", pyam_frames, 50, 700),
    Family("csv", csv, 90, 1400),
    Family("refused", refused, 40, 500),
]
FAMILIES += [
    Family("large tables", gen.large(tables), 17, 200),
    Family("large arrays", gen.large(arrays), 10, 125),
    Family("large unsorted", gen.large(unsorted), 6, 45),
    Family("large csv", gen.large(csv), 6, 70),
]
