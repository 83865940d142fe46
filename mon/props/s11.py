import csv
import datetime
import math
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from openscm.scmdataframe import ScmDataFrame, df_append
from openscm.scmdataframe.base import ScmDataFrameBase
from openscm.scmdataframe.pyam_compat import LongDatetimeIamDataFrame

from mon import gen, ref, scm, scmops
from mon.core import Family

RULE = (
    "a case is a random frame (any number of timeseries, extra metadata of text and numbers, special characters, extreme values and times, missing values) written to CSV or "
    "converted to pyam and read back; the file is also parsed by the csv module and the IamDataFrame read row by row; non-trivial: at least two timeseries and extra metadata "
    "or missing values"
)
COVER = [
    "csv", "csv of one timeseries", "csv of one time point", "csv text", "csv twice", "csv missing values", "csv special characters", "csv sub-daily", "csv before 1677", "csv after 2262", "csv extra text",
    "csv extra numbers", "csv integers", "csv extreme values", "csv after operations", "csv subclass", "csv unicode", "pyam", "pyam data", "pyam missing values", "pyam before 1677", "pyam after 2262", "pyam extra metadata",
    "pyam sub-daily", "pyam appended", "csv appended", "many timeseries", "times not in order in metadata", "source unchanged", "pyam special characters",
    "pivot sum", "pivot mean", "pivot by time", "pivot of groups", "long table", "long table with text times", "incomplete text times", "long table refused",
]
ASSUMPTIONS = [
    "text columns hold at least one text which is not a number and no text which pandas.read_csv takes for missing ('', 'nan', 'None', ...)",
    "values are the same up to the rounding of pandas.read_csv (1e-14)", "no timeseries or time point without any value (pyam has no place for them)",
]
TECHNIQUE = "round-trip events compared with the model; written files additionally decoded by an independent reader"

SPECIAL = ["a, b", 'the "quoted"', "semi;colon", "tab\there", " leading", "trailing ", "line\nbreak", "Österreich", "R5.2|x", "#1", "it's", "a|b|c", "1,5", "-", "=1+1", "日本", "100 %", "True story"]
TEXT = ["MAGICC6", "init", "final", "World", "x", "spin-up"]


def build(rng, o):
    style = rng.choice(["any", "any", "seconds", "wide", "one"])
    ts = [] 
    for _ in range(20):
        ts = gen.axis(rng, n=1 if style == "one" else rng.randint(1, 12), style=style if style in ("seconds", "wide") else rng.choice(["annual", "decadal", "monthly", "irregular", "equal"]))
        if gen.year_start(1000) <= ts[0] and ts[-1] < gen.year_start(9999):
            break
    else:
        ts = [gen.year_start(2000 + i) for i in range(3)]
    n = rng.choice([1, 1, 2, 3, 5, 8, 40 if rng.random() < 0.2 else 4])
    rows = scm.metadata(rng, n, extra=[])
    if rng.random() < 0.6:
        for r in rows:
            for c in scm.REQUIRED:
                if c != "unit" and rng.random() < 0.3:
                    r[c] = rng.choice(SPECIAL)
    kinds = []
    for k in range(rng.choice([0, 1, 1, 2, 3])):
        kind = rng.choice(["text", "special", "int", "float", "big"])
        name = rng.choice(["climate_model", "run", "ecs", "stage", "depth (m)", "a", "z-z", "note", "höhe"])
        if name in rows[0]:
            continue
        kinds.append(kind)
        for i, r in enumerate(rows):
            r[name] = {
                "text": lambda: rng.choice(TEXT), "special": lambda: rng.choice(SPECIAL), "int": lambda: rng.choice([0, 1, -3, 10, 273, -999]),
                "float": lambda: rng.choice([0.5, 1.25, -2.75, 273.15, 1e-5]), "big": lambda: rng.choice([1e22, 3e-12, 10 ** 12]),
            }[kind]()
    m = scm.Model(rows, ts, scm.matrix(rng, len(rows), len(ts), rng.choice([0, 0, 0.2, 0.6])))
    if rng.random() < 0.2:
        for v in m.vals:
            for j in range(len(v)):
                v[j] = float(rng.randint(-5, 5)) if not math.isnan(v[j]) else v[j]
        kinds.append("whole")
    if rng.random() < 0.2:
        for v in m.vals:
            v[rng.randrange(len(v))] = rng.choice([1e300, -1e-300, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 0.1 + 0.2, 1 / 3, 123456789.123456789])
        kinds.append("extreme")
    m = m.compact()
    if not m.rows or not m.unique():
        return None
    return m, kinds


def text_safe(m):
    """columns of text are not taken for numbers"""
    for c in m.cols:
        vs = [r.get(c) for r in m.rows]
        if all(isinstance(v, str) for v in vs):
            ok = False
            for v in vs:
                try:
                    float(v)
                except ValueError:
                    ok = True
            if not ok or any(v.strip().lower() in ("", "nan", "none", "null", "na", "n/a", "<na>", "#n/a", "true", "false") for v in vs):
                return False
        elif any(isinstance(v, str) or v is None for v in vs):
            return False
    return True


def labels(o, m, kinds, what):
    dts = m.datetimes()
    special = {s for s in SPECIAL}
    has = lambda k: k in kinds  # noqa
    if any(math.isnan(x) for v in m.vals for x in v):
        o.cover(what + " missing values")
    if any(r[c] in special for r in m.rows for c in m.cols):
        o.cover(what + " special characters")
    if any(d.second or d.hour for d in dts):
        o.cover(what + " sub-daily")
    if dts[0].year < 1677:
        o.cover(what + " before 1677")
    if dts[-1].year > 2262:
        o.cover(what + " after 2262")
    if what == "csv":
        if len(m.rows) == 1:
            o.cover("csv of one timeseries")
        if len(dts) == 1:
            o.cover("csv of one time point")
        if any(isinstance(r[c], str) for r in m.rows for c in m.cols[5:]):
            o.cover("csv extra text")
        if any(isinstance(r[c], (int, float)) for r in m.rows for c in m.cols[5:]):
            o.cover("csv extra numbers")
        if has("whole"):
            o.cover("csv integers")
        if has("extreme"):
            o.cover("csv extreme values")
        if any(not str(r[c]).isascii() for r in m.rows for c in m.cols):
            o.cover("csv unicode")
    elif len(m.cols) > 5:
        o.cover("pyam extra metadata")
    if len(m.rows) > 20:
        o.cover("many timeseries")
    if m.keys() != sorted(m.keys()):
        o.cover("times not in order in metadata")
    if len(m.rows) > 1 and (len(m.cols) > 5 or any(math.isnan(x) for v in m.vals for x in v)):
        o.nontrivial()
    o.state(what, len(m.rows), len(dts), len(m.cols))


class Sub(ScmDataFrameBase):
    pass


def decode(o, path):
    """the written file, by another reader"""
    with open(path, newline="", encoding="utf-8") as fh:
        table = list(csv.reader(fh))
    head = table[0]
    when, meta = {}, {}
    for i, h in enumerate(head):
        for fmt in ("%Y-%m-%d %H:%M:%S", "%Y-%m-%d"):
            try:
                when[i] = ref.to_seconds(datetime.datetime.strptime(h, fmt))
            except ValueError:
                pass
        if i not in when:
            meta[i] = h.lower()
    rows, vals = [], []
    for line in table[1:]:
        o.eq(len(line), len(head), "fields of a line of the file")
        rows.append({c: line[i] for i, c in meta.items()})
        vals.append([float(line[i]) if line[i] != "" else float("nan") for i in when])
    return scm.Model(rows, list(when.values()), vals)


def rounded(m):
    """numbers in metadata without their last digits, which pandas.read_csv rounds"""
    out = m.copy()
    for r in out.rows:
        for c, v in r.items():
            if isinstance(v, float):
                r[c] = float("{:.13e}".format(v))
    return out


def as_text(m):
    out = m.copy()
    for r in out.rows:
        for c, v in r.items():
            r[c] = str(v)
    return out


def evolve(rng, o, m, f):
    """a few operations first"""
    for _ in range(rng.randint(1, 3)):
        op = scmops.random_op(rng, m, [scmops.filter_, scmops.rename_, scmops.set_derived, scmops.copy_])
        f2 = op.run(f) if op.run else None
        if f2 is None:
            f2 = f.copy()
            op.inplace(f2)
        f, m = f2, op.exp
    return m.compact(), f


def csv_trip(rng, o):
    b = build(rng, o)
    if b is None:
        return
    m, kinds = b
    cls = rng.choice([ScmDataFrame, ScmDataFrame, Sub])
    f = m.build(cls)
    if rng.random() < 0.3 and not any("*" in str(v) for r in m.rows for v in r.values()):
        m, f = evolve(rng, o, m, f)
        o.cover("csv after operations")
    if not text_safe(m) or not m.rows or not m.unique():
        return
    if cls is Sub:
        o.cover("csv subclass")
    before = scm.read(o, f)
    d = tempfile.mkdtemp(prefix="verif-s11-")
    try:
        path = os.path.join(d, "x.csv")
        o.event("to_csv", "{} x {} {}", len(m.rows), len(m.times), m.cols[5:])
        o.returns("to_csv", f.to_csv, path)
        scm.compare(o, scm.read(o, f), before, "frame after to_csv", order=True)
        o.cover("source unchanged")
        text = decode(o, path)
        exp = as_text(m)
        big = len(m.cols) > 5 and any(isinstance(r[c], (int, float)) for r in m.rows for c in m.cols[5:])
        if not big:  # numbers have many spellings
            o.cover("csv text")
            scm.compare(o, text, exp, "content of the file", rtol=1e-15)
        back = o.returns("ScmDataFrame(csv)", cls, path)
        scm.compare(o, rounded(scm.read(o, back)), rounded(m), "frame written and read", rtol=1e-14, atol=1e-320)
        if rng.random() < 0.3:
            path2 = os.path.join(d, "y.csv")
            back.to_csv(path2)
            again = o.returns("ScmDataFrame(csv of csv)", cls, path2)
            scm.compare(o, rounded(scm.read(o, again)), rounded(m), "frame written and read twice", rtol=2e-14, atol=1e-320)
            o.cover("csv twice")
        if rng.random() < 0.3:
            other = m.copy()
            for r in other.rows:
                r["scenario"] = "other|" + r["scenario"]
            both = scm.Model(m.rows + other.rows, m.times, m.vals + other.vals)
            got = o.returns("df_append of a file", df_append, [path, other.build()], duplicate_msg=False)
            scm.compare(o, rounded(scm.read(o, got)), rounded(both), "file appended to a frame", rtol=1e-14, atol=1e-320)
            o.cover("csv appended")
    finally:
        shutil.rmtree(d)
    o.cover("csv")
    labels(o, m, kinds, "csv")


def pyam_trip(rng, o):
    b = build(rng, o)
    if b is None:
        return
    m, kinds = b
    f = m.build()
    before = scm.read(o, f)
    o.event("to_iamdataframe", "{} x {} {}", len(m.rows), len(m.times), m.cols[5:])
    iam = o.returns("to_iamdataframe", f.to_iamdataframe)
    points = {}
    columns = {c: list(iam.data[c]) for c in iam.data.columns}
    for i in range(len(iam.data)):
        r = {c: v[i] for c, v in columns.items()}
        k = tuple((c, scm.typed(r.get(c))) for c in m.cols), scm.seconds(r["time"])
        o.check(k not in points, "a point occurs twice in the IamDataFrame", point=k)
        points[k] = r["value"]
    scm.points_equal(o, points, m.points(), "data of the IamDataFrame")
    o.eq(set(iam.data.columns), set(m.cols) | {"time", "value"}, "columns of the IamDataFrame")
    o.cover("pyam data")
    back = o.returns("ScmDataFrame(IamDataFrame)", rng.choice([ScmDataFrame, Sub]), iam)
    scm.compare(o, scm.read(o, back), m, "frame converted to pyam and back")
    scm.compare(o, scm.read(o, f), before, "frame after to_iamdataframe", order=True)
    if rng.random() < 0.3:
        other = m.copy()
        for r in other.rows:
            r["scenario"] = "other|" + r["scenario"]
        both = scm.Model(m.rows + other.rows, m.times, m.vals + other.vals)
        got = o.returns("append an IamDataFrame", other.build().append, iam, duplicate_msg=False)
        scm.compare(o, scm.read(o, got), both, "IamDataFrame appended to a frame")
        o.cover("pyam appended")
    o.cover("pyam")
    labels(o, m, kinds, "pyam")


def pivot(rng, o):
    """pivot_table shows the statistics of the frame's own points"""
    b = build(rng, o)
    if b is None:
        return
    m, kinds = b
    if "extreme" in kinds:
        return
    f = m.build()
    names = [c for c in m.cols] + ["time"]
    rng.shuffle(names)
    k = rng.randint(1, min(3, len(names) - 1))
    index, columns = names[:k], names[k : k + rng.randint(1, 2)]
    if "time" in columns:  # times as columns, too, but only alone
        columns = ["time"]
    how = rng.choice(["sum", "mean"])
    if any(isinstance(r.get(c), (int, float)) for r in m.rows for c in index + columns):
        how = "sum"  # pyam rounds the headers with the means
    o.event("pivot_table", "{} {} {}", index, columns, how)
    got = o.returns(
        "pivot_table", f.pivot_table, index=index if len(index) > 1 or rng.random() < 0.5 else index[0], columns=columns if len(columns) > 1 or rng.random() < 0.5 else columns[0], aggfunc=how,
    )
    exp = {}
    for r, v in zip(m.rows, m.vals):
        for t, x in zip(m.times, v):
            if not math.isnan(x):
                at = lambda c: t if c == "time" else scm.typed(scm.norm(r[c]))  # noqa
                exp.setdefault((tuple(at(c) for c in index), tuple(at(c) for c in columns)), []).append(x)
    key = lambda names, k: tuple(scm.seconds(x) if c == "time" else scm.typed(scm.norm(x)) for c, x in zip(names, k if isinstance(k, tuple) else (k,)))  # noqa
    seen = {}
    rows, cols = list(got.index), list(got.columns)
    vals = got.values.tolist()
    for i, a in enumerate(rows):
        for j, c in enumerate(cols):
            if vals[i][j] == "" or (isinstance(vals[i][j], float) and math.isnan(vals[i][j])):
                continue
            seen[key(index, a), key(columns, c)] = float(vals[i][j])
    o.eq(sorted(map(repr, seen)), sorted(map(repr, exp)), "cells of the pivot table")
    for k, v in exp.items():
        total = math.fsum(v) / (len(v) if how == "mean" else 1)
        o.close(seen[k], total, "cell of the pivot table", rtol=1e-9, atol=1e-12 * max(map(abs, v)) * len(v) + (0.00501 if how == "mean" else 0))  # pyam rounds means
    o.cover("pivot " + how)
    if "time" in index + columns:
        o.cover("pivot by time")
    if max(map(len, exp.values())) > 1:
        o.cover("pivot of groups")


MONTH = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]


def spelled(rng, o, t):
    """an instant as text; parts which are left out are the first ones"""
    forms = [str(t), t.isoformat()]
    if (t.hour, t.minute, t.second) == (0, 0, 0):
        forms += ["{:04d}-{:02d}-{:02d}".format(t.year, t.month, t.day), "{} {} {:04d}".format(t.day, MONTH[t.month - 1], t.year)]
        if t.day == 1:
            forms += ["{:04d}-{:02d}".format(t.year, t.month), "{} {:04d}".format(MONTH[t.month - 1], t.year)] * 2
            o.cover("incomplete text times")
            if t.month == 1:
                forms += ["{:04d}".format(t.year)] * 2
    return rng.choice(forms)


def long_table(rng, o):
    """IamDataFrames of long times made from tables, with times as text or datetimes"""
    b = build(rng, o)
    if b is None:
        return
    m, kinds = b
    if any(d.year < 1000 for d in m.datetimes()):
        return
    m = m.copy()
    text = rng.random() < 0.6
    table = {c: [] for c in m.cols + ["time", "value"]}
    for r, v in zip(m.rows, m.vals):
        for t, x in zip(m.datetimes(), v):
            for c in m.cols:
                table[c].append(r[c])
            table["time"].append(spelled(rng, o, t) if text else t)
            table["value"].append(x)
    df = pd.DataFrame({c: pd.Series(v, dtype=object if c == "time" else None) for c, v in table.items()})
    o.event("LongDatetimeIamDataFrame", "{} rows, text {}", len(df), text)
    iam = o.returns("LongDatetimeIamDataFrame", LongDatetimeIamDataFrame, df.copy())
    back = o.returns("ScmDataFrame(IamDataFrame)", ScmDataFrame, iam)
    scm.compare(o, scm.read(o, back), m, "table given to pyam and then to a frame")
    o.cover("long table with text times" if text else "long table")
    bad = df.copy()
    bad.loc[rng.choice([i for i, x in enumerate(table["value"]) if not math.isnan(x)]), "time"] = rng.choice(["not a date", "20x0", 7.5, None])
    o.raises((ValueError, TypeError), "a time which is none", LongDatetimeIamDataFrame, bad)
    o.cover("long table refused")


FAMILIES = [Family("csv", csv_trip, 375, 1800), Family("pyam", pyam_trip, 275, 1400), Family("pivot", pivot, 150, 800), Family("long_table", long_table, 125, 600)]
