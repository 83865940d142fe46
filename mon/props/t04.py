import calendar
import datetime
from fractions import Fraction

import numpy as np
import pandas as pd

from openscm.core.parameters import ParameterType
from openscm.core.time import TimePoints, create_time_points
from openscm.scmdataframe import ScmDataFrame

from mon import gen, ref
from mon.core import Family

RULE = (
    "a case is a random list of instants (years 1-9998, leap years, ends of years and months, any order) written in one accepted "
    "format and given to TimePoints or to a ScmDataFrame (index, columns, time reassignment); every instant and calendar field is "
    "compared with integer/rational calendar arithmetic; non-trivial: instants from at least two different centuries, or outside "
    "pandas' Timestamp range"
)
COVER = [
    "int years", "year strings", "float years", "float year strings", "float leap year", "datetimes", "datetime64[D]", "datetime64[s]", "datetime64[ms]", "datetime64[us]",
    "datetime64[ns]", "date strings", "object array", "pandas index", "before 1677", "after 2262", "29 February", "year below 1000", "frame index",
    "frame wide columns", "frame long year", "frame time set", "create_time_points point", "create_time_points average", "incomplete dates", "single point",
    "unsorted", "datetime64[Y]", "datetime64[h]", "years as int", "years as uint", "mixed", "mixed kinds", "int and float years",
]
ASSUMPTIONS = ["proleptic Gregorian calendar as implemented by Python's datetime", "float years are compared to within one second"]


def instant(rng, midnight=False, first=False):
    y = rng.choice([rng.randint(1, 9998), rng.randint(1, 9998), rng.randint(1850, 2100), rng.choice([1, 4, 100, 400, 1582, 1600, 1900, 2000, 2004, 9996, 9998])])
    if first:
        return ref.to_seconds(datetime.datetime(y, 1, 1))
    m = rng.choice([1, 2, 2, 12, rng.randint(1, 12)])
    last = calendar.monthrange(y, m)[1]
    d = rng.choice([1, last, rng.randint(1, last)])
    if midnight:
        return ref.to_seconds(datetime.datetime(y, m, d))
    h, mi, s = rng.choice([(0, 0, 0), (23, 59, 59), (rng.randrange(24), rng.randrange(60), rng.randrange(60))])
    return ref.to_seconds(datetime.datetime(y, m, d, h, mi, s))


def float_year(rng):
    y = rng.choice([rng.randint(1, 9998), rng.randint(1850, 2100), rng.choice([4, 2000, 2004, 1900, 9996])])
    f = float(y) + rng.choice([0.0, 0.5, 0.25, rng.random(), rng.random(), 1 / 12, 0.999])
    if rng.random() < 0.3:  # right before or after a year starts
        f = rng.choice([float(np.nextafter(float(y + 1), 0)), y + 1 - rng.choice([1e-6, 3e-7, 5e-8, 2e-6, 1e-5]), y + rng.choice([1e-6, 4e-7, 5e-8, 1e-5])])
    if int(f) != y:
        f = float(y)
    span = ref.to_seconds(datetime.datetime(y + 1, 1, 1)) - ref.to_seconds(datetime.datetime(y, 1, 1))
    return f, Fraction(ref.to_seconds(datetime.datetime(y, 1, 1))) + (Fraction(f) - y) * span, calendar.isleap(y)


def formats(rng, o, n, unique=False):
    """-> (values to hand over, expected seconds (exact, maybe Fractions), name of the format)"""
    fmt = rng.choice(
        ["int years", "year strings", "float years", "float year strings", "datetimes", "datetime64[s]", "datetime64[ms]", "datetime64[us]", "datetime64[ns]", "datetime64[D]",
         "datetime64[Y]", "datetime64[h]", "date strings", "date strings", "incomplete dates", "mixed", "mixed"]
    )
    if fmt in ("float years", "float year strings"):
        fs = [float_year(rng) for _ in range(n)]
        if any(l for _, _, l in fs):
            o.cover("float leap year")
        vals, exp = [f for f, _, _ in fs], [e for _, e, _ in fs]
        if fmt == "float year strings":
            vals = [repr(float(f)) for f in vals]
    elif fmt in ("int years", "year strings", "datetime64[Y]"):
        exp = [instant(rng, first=True) for _ in range(n)]
        ys = [ref.from_seconds(t).year for t in exp]
        if fmt == "int years":
            vals = ys
            if rng.random() < 0.4:
                dt = rng.choice(["int16", "int32", "int64", "uint16", "uint32", "uint64"] + (["uint8", "int8"] if max(ys) < 128 else []))
                vals = np.array(ys, dtype=dt)
                o.cover("years as " + dt.rstrip("0123456789"))
        elif fmt == "year strings":
            vals = [str(y) for y in ys]
        else:
            vals = np.array([y - 1970 for y in ys], dtype="int64").astype("datetime64[Y]")
    elif fmt == "mixed":
        vals, exp = [], []
        for _ in range(n):
            k = rng.choice(["int", "numpy int", "float", "datetime", "datetime64"])
            if k == "float":
                f, e, _ = float_year(rng)
                vals.append(rng.choice([float, np.float64])(f))
                exp.append(e)
                continue
            t = instant(rng, first=k in ("int", "numpy int"))
            d = ref.from_seconds(t)
            vals.append({"int": d.year, "numpy int": np.int64(d.year), "datetime": d, "datetime64": np.datetime64(t, "s")}[k])
            exp.append(t)
        if len({type(v) for v in vals}) > 1:
            o.cover("mixed kinds")
        if len({type(v) for v in vals} & {int, float}) == 2:
            o.cover("int and float years")
    elif fmt == "incomplete dates":
        ts = [instant(rng, first=True) for _ in range(n)]
        ts = [t if ref.from_seconds(t).year > 1000 else ref.to_seconds(datetime.datetime(1850, 1, 1)) for t in ts]
        vals, exp = [], []
        for t in ts:
            d = ref.from_seconds(t)
            m = rng.randint(1, 12)
            vals.append("{:04d}-{:02d}".format(d.year, m))
            exp.append(ref.to_seconds(datetime.datetime(d.year, m, 1)))
    else:
        day = fmt == "datetime64[D]"
        exp = [instant(rng, midnight=day) for _ in range(n)]
        if fmt == "datetime64[h]":
            exp = [t - t % 3600 for t in exp]
        if fmt == "datetime64[ns]":
            exp = [t if 1700 < ref.from_seconds(t).year < 2250 else t % (60 * gen.DAY * 365) for t in exp]
        dts = [ref.from_seconds(t) for t in exp]
        if fmt == "datetimes":
            vals = dts
        elif fmt == "date strings":
            k = rng.randrange(4)
            if k == 3:
                exp = [t - t % gen.DAY for t in exp]
                vals = ["{:04d}-{:02d}-{:02d}".format(d.year, d.month, d.day) for d in dts]
            else:
                pat = ["{:04d}-{:02d}-{:02d} {:02d}:{:02d}:{:02d}", "{:04d}-{:02d}-{:02d}T{:02d}:{:02d}:{:02d}", "{:04d}/{:02d}/{:02d} {:02d}:{:02d}:{:02d}"][k]
                vals = [pat.format(d.year, d.month, d.day, d.hour, d.minute, d.second) for d in dts]
        else:
            vals = np.array(exp, dtype="int64").astype("datetime64[s]").astype(fmt)
    if unique:
        seen, keep = set(), []
        for i, e in enumerate(exp):
            if int(e) not in seen:
                seen.add(int(e))
                keep.append(i)
        vals = vals[keep] if isinstance(vals, np.ndarray) else [vals[i] for i in keep]
        exp = [exp[i] for i in keep]
    o.cover(fmt)
    return vals, exp, fmt


def objects(vals):
    """without letting numpy look for a common type"""
    a = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        a[i] = v
    return a


def container(rng, o, vals, fmt):
    if fmt == "mixed":
        if all(isinstance(v, (int, float, np.integer)) for v in vals) and rng.random() < 0.5:
            return list(vals)
        return rng.choice([objects, objects, lambda v: pd.Index(objects(v), dtype=object)])(vals)
    k = rng.randrange(4)
    if isinstance(vals, np.ndarray):
        return vals if k else list(vals)
    if k == 0:
        return list(vals)
    if k == 1:
        return np.array(vals)
    if k == 2:
        o.cover("object array")
        return np.array(vals, dtype=object)
    o.cover("pandas index")
    return pd.Index(vals, dtype=object)


def compare(o, got, exp, fmt, what):
    """got: datetime64[s] array"""
    o.check(got.dtype == np.dtype("datetime64[s]"), what + ": not at second resolution", dtype=got.dtype)
    g = got.astype("int64")
    o.check(len(g) == len(exp), what + ": wrong number of time points")
    out = []
    for i, (a, e) in enumerate(zip(g.tolist(), exp)):
        if isinstance(e, Fraction):
            ok = abs(Fraction(a) - e) < 1 + Fraction(1, 10 ** 5)
            if Fraction(e).denominator == 1:
                ok = a == e
        else:
            ok = a == e
        o.check(ok, "{}: another instant ({})".format(what, fmt), index=i, observed=str(ref.from_seconds(a)), expected=str(ref.from_seconds(int(e))))
        out.append(a)
    return out


def interesting(o, secs):
    ds = [ref.from_seconds(s) for s in secs]
    for d in ds:
        if d.year < 1677:
            o.cover("before 1677")
        if d.year > 2262:
            o.cover("after 2262")
        if d.year < 1000:
            o.cover("year below 1000")
        if (d.month, d.day) == (2, 29):
            o.cover("29 February")
    if secs != sorted(secs):
        o.cover("unsorted")
    if len({d.year // 100 for d in ds}) > 1 or any(d.year < 1677 or d.year > 2262 for d in ds):
        o.nontrivial()
    o.state(tuple(sorted({(d.year // 500, d.month == 2, d.hour == 0) for d in ds})))
    return ds


def time_points(rng, o):
    n = rng.choice([1, 2, 5, 9])
    vals, exp, fmt = formats(rng, o, n)
    c = container(rng, o, vals, fmt)
    o.event("input", "{} {!r}".format(fmt, [str(v) for v in vals]))
    t = o.returns("TimePoints({})".format(fmt), TimePoints, c)
    secs = compare(o, t.values, exp, fmt, "TimePoints")
    ds = interesting(o, secs)
    if n == 1:
        o.cover("single point")
    for name, f in [("years", lambda d: d.year), ("months", lambda d: d.month), ("days", lambda d: d.day), ("hours", lambda d: d.hour), ("weekdays", lambda d: weekday(d))]:
        o.eq([int(x) for x in getattr(t, name)()], [f(d) for d in ds], name + " disagree with the calendar", times=[str(d) for d in ds])
    idx = t.to_index()
    o.check(idx.dtype == object and list(idx) == ds and idx.name == "time", "to_index differs from the values", observed=list(idx))
    again = TimePoints(t.values)
    o.eq(again.values.tolist(), t.values.tolist(), "time points of time points")


def weekday(d):
    """Monday = 0; independent of datetime.weekday"""
    return ((ref.to_seconds(d) // gen.DAY) + 3) % 7


META = {"model": "m", "scenario": "s", "region": "World", "unit": "K"}


def frame(rng, o):
    n = rng.choice([2, 3, 6])
    how = rng.choice(["index", "index", "wide", "set", "set", "long"])
    vals, exp, fmt = formats(rng, o, n, unique=True)
    while how == "long" and fmt != "int years" and rng.random() < 0.9:
        vals, exp, fmt = formats(rng, o, n, unique=True)
    n = len(exp)
    data = np.arange(2.0 * n).reshape(n, 2) + 0.5
    o.event("input", "{} {} {!r}".format(how, fmt, [str(v) for v in vals]))
    columns = {k: [v] for k, v in META.items()}
    columns["variable"] = ["A", "B"]
    if how == "index":
        c = container(rng, o, vals, fmt)
        f = o.returns("ScmDataFrame(index={})".format(fmt), ScmDataFrame, data, index=c, columns=columns)
        order = list(range(n))
        o.cover("frame index")
    elif how == "set":
        f = ScmDataFrame(data, index=np.arange(n) + 2000, columns=columns)
        f["time"] = container(rng, o, vals, fmt)
        order = list(range(n))
        o.cover("frame time set")
    else:
        cols = [v if not isinstance(v, np.datetime64) else ref.from_seconds(int(e)) for v, e in zip(list(vals), exp)]
        if fmt == "year strings":
            cols = ["{:04d}".format(int(c)) for c in cols]  # sorting strings of different length is S01's business
        order = sorted(range(n), key=lambda i: exp[i])
        if how == "long" and fmt == "int years":
            df = pd.DataFrame([dict(META, variable=v, year=c, value=data[i, j]) for i, c in enumerate(cols) for j, v in enumerate("AB")])
            o.cover("frame long year")
        else:
            df = pd.DataFrame(data.T, columns=pd.Index(cols, dtype=object))
            for k, v in META.items():
                df[k] = v
            df["variable"] = ["A", "B"]
            o.cover("frame wide columns")
        f = o.returns("ScmDataFrame({} {})".format(how, fmt), ScmDataFrame, df)
    secs = compare(o, f.time_points, [exp[i] for i in order], fmt, "frame ({})".format(how))
    ds = interesting(o, secs)
    o.eq(list(f["time"]), ds, 'frame["time"]')
    o.eq([int(y) for y in f["year"]], [d.year for d in ds], 'frame["year"]')
    ts = f.timeseries()
    o.eq(list(ts.columns), ds, "columns of timeseries()")
    meta = f.meta
    for j, v in enumerate("AB"):
        row = f.filter(variable=v)
        o.close(row.values[0], data[order, j], "values are not aligned with their time points", fmt=fmt)
    # every value is found under its own instant
    i = rng.randrange(n)
    one = f.filter(time=ds[i])
    o.eq(sorted(one.values[:, 0].tolist()), sorted(data[order[i]].tolist()), "values at one instant")


def create(rng, o):
    kind = rng.choice(["point", "average"])
    num = rng.randint(1, 60)
    unit, scale = rng.choice([("s", 1), ("m", 60), ("h", 3600), ("D", gen.DAY), ("W", 7 * gen.DAY)])
    start = instant(rng)
    start_unit = rng.choice(["s", "s", "ms", "us"])
    k = rng.randint(1, {"s": 10 ** 7, "m": 10 ** 6, "h": 10 ** 5, "D": 400, "W": 60}[unit])
    pts = num + (kind == "average")
    end = start + k * scale * pts
    if end > ref.to_seconds(datetime.datetime(9999, 12, 31)):
        start = ref.to_seconds(datetime.datetime(1500, 3, 1, 5, 6, 7))
    st = np.datetime64(start, "s").astype("datetime64[{}]".format(start_unit))
    t = o.returns("create_time_points({},{} {},{},{})".format(st, k, unit, num, kind), create_time_points, st, np.timedelta64(k, unit), num, rng.choice([kind, ParameterType.AVERAGE_TIMESERIES if kind == "average" else ParameterType.POINT_TIMESERIES]))
    o.eq(t.astype("datetime64[s]").astype("int64").tolist(), [start + i * k * scale for i in range(pts)], "create_time_points is not start + i * period")
    o.check(t.dtype == np.dtype("datetime64[s]"), "resolution")
    o.cover("create_time_points " + kind)
    interesting(o, t.astype("int64").tolist())


FAMILIES = [Family("time points", time_points, 1200, 25000), Family("frame", frame, 700, 6000), Family("create_time_points", create, 500, 8000)]
