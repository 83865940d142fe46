import datetime
import math

import numpy as np
import pandas as pd

from openscm.scmdataframe import ScmDataFrame, df_append
from openscm.scmdataframe.base import ScmDataFrameBase

from mon import gen, ref, scm, scmops
from mon.core import Family
from mon.scmops import frozen

RULE = (
    "a case calls a random returning operation on a random frame and compares images of the frame and of all arguments from before and after, then changes the result in "
    "every public way and looks at the source, or the other way round; in-place forms run on a copy are compared with the returned frame; non-trivial: at least two "
    "timeseries and an operation whose result differs from its source"
)
COVER = [
    "filter", "append", "rename", "convert_unit", "interpolate", "copy", "resample", "process_over", "relative_to_ref_period_mean", "timeseries", "timeseries(meta)", "values", "meta",
    "time_points", "to_iamdataframe", "to_parameterset", "['time']", "['year']", "[column]", "[columns]", "head", "tail", "ScmDataFrame()", "df_append", "source changed", "result changed", "inplace form",
    "argument changed later", "missing values", "missing metadata", "set time", "set_meta list", "set_meta series", "len",
]
ASSUMPTIONS = ["state is compared through the public read interface (values, metadata, order, time points, index names)"]
TECHNIQUE = "before/after images of source and arguments around each event (purity), write-probes on both sides (aliasing), equivalence of in-place and returned histories"


def image(o, f):
    scm.read(o, f)
    return (type(f).__name__, frozen(f), tuple(f.meta.columns), tuple(map(repr, f["time"])), len(f))


def same(o, before, after, msg, **info):
    o.check(before == after, msg, before=before, after=after, **info)


def disturb(rng, o, x):
    """change a result in every way there is"""
    if isinstance(x, ScmDataFrameBase):
        k = rng.randrange(4)
        if len(x):
            if k == 0:
                x._data.iloc[:, :] = -7.5
            elif k == 1:
                x._data.values[:] = -7.5
            x.set_meta("disturbed", "scenario")
            x["another column"] = list(range(len(x)))
            x._meta.iloc[:, 0] = "disturbed"
            x["time"] = [datetime.datetime(1900, 1, 1) + datetime.timedelta(days=i) for i in range(len(x["time"]))]
            x.rename({"region": {x["region"].iloc[0]: "disturbed"}}, inplace=True) if len(x) == 1 else None
            x._data.drop(index=x._data.index[0], inplace=True)
    elif isinstance(x, pd.DataFrame):
        if x.size:
            try:
                x.values[:] = -7.5
            except Exception:  # noqa  mixed types or read-only
                pass
            x.iloc[:, 0] = -7
            x.index.names = ["n%d" % i for i in range(len(x.index.names))]
            x.drop(x.columns[-1], axis=1, inplace=True)
    elif isinstance(x, pd.Series):
        if len(x):
            x.iloc[0] = x.iloc[-1]
            x.values[:] = x.values[0]
            x.name = "disturbed"
    elif isinstance(x, np.ndarray):
        if x.size:
            x.ravel()[:] = x.ravel()[-1]
            x[:] = x[-1]
    elif hasattr(x, "data") and hasattr(x, "meta"):  # pyam
        x.data.loc[:, "value"] = -7.5
        x.data.loc[:, "variable"] = "disturbed"
        x.meta.iloc[:, 0] = 3


def others(rng, m):
    """returning operations which are not in scmops -> (label, function, arguments)"""
    ys = sorted({d.year for d in m.datetimes()})
    text = [c for c in scmops.textual(m)]
    complete = [c for c in m.cols if all(scm.norm(r.get(c)) is not None for r in m.rows)]
    col = rng.choice(m.cols)
    out = [
        ("timeseries", lambda f: f.timeseries(), []),
        ("values", lambda f: f.values, []),
        ("meta", lambda f: f.meta, []),
        ("time_points", lambda f: f.time_points, []),
        ("['time']", lambda f: f["time"], []),
        ("['year']", lambda f: f["year"], []),
        ("[column]", lambda f: f[col], []),
        ("head", lambda f: f.head(2), []),
        ("tail", lambda f: f.tail(2), []),
        ("ScmDataFrame()", lambda f: ScmDataFrame(f), []),
        ("len", lambda f: len(f), []),
    ]
    cols = rng.sample(m.cols, rng.randint(1, len(m.cols)))
    out.append(("[columns]", lambda f: f[cols], [cols]))
    if m.unique(cols):
        out.append(("timeseries(meta)", lambda f: f.timeseries(cols), [cols]))
    over = rng.sample([c for c in m.cols], rng.randint(1, 3))
    if len(over) < len(m.cols):
        op = rng.choice(["mean", "median", "quantile"])
        out.append(("process_over", lambda f: f.process_over(over, op), [over]))
    kw = {"year": ys[: rng.randint(1, len(ys))]}
    if rng.random() < 0.3:
        kw["month"] = ["Jan-Dec"]
    out.append(("relative_to_ref_period_mean", lambda f: f.relative_to_ref_period_mean(**kw), [kw]))
    span = m.times[-1] - m.times[0]
    rule = "AS" if span > 3 * 366 * gen.DAY else "D" if 3 * gen.DAY < span < 60 * gen.DAY else None
    if rule == "AS" and span > 500 * 366 * gen.DAY:
        rule = "10AS"
    if rule and len(m.times) >= 3 and not any(x != x for v in m.vals for x in v) and 1700 < ys[0] and ys[-1] < 2240 and all(scm.norm(r["unit"]) in scm.UNIT for r in m.rows):
        out += [("resample", lambda f: f.resample(rule), [])] * 3
    if 1700 < ys[0] and not any(r.get(c) is None for r in m.rows for c in m.cols):
        out.append(("to_iamdataframe", lambda f: f.to_iamdataframe(), []))
    other = scmops.start(rng, n=2)
    return out + [("df_append", None, other)]


def run(rng, o):
    annual = [gen.year_start(1950 + 4 * i) for i in range(rng.randint(3, 6))]
    m = scmops.start(rng, n=rng.randint(1, 6), times=annual if rng.random() < 0.3 else None)
    if any(x != x for v in m.vals for x in v):
        o.cover("missing values")
    if any(r.get(c) is None for r in m.rows for c in m.cols):
        o.cover("missing metadata")
    f = m.build()
    if rng.random() < 0.4:  # prior history
        for _ in range(rng.randint(1, 3)):
            op = scmops.random_op(rng, m, [scmops.set_scalar, scmops.set_list, scmops.set_indexed, scmops.filter_, scmops.copy_, scmops.convert_])
            if op.run:
                f = op.run(f)
            else:
                op.inplace(f)
            m = scm.read(o, f)
    for _ in range(5):
        if rng.random() < 0.5:
            op = scmops.random_op(rng, m, [scmops.filter_, scmops.append_, scmops.append_, scmops.rename_, scmops.rename_, scmops.convert_, scmops.convert_, scmops.interpolate_, scmops.copy_])
            label, call, args, inplace = op.label, op.run, op.args, op.inplace
        else:
            label, call, args = rng.choice(others(rng, m))
            inplace = None
            if label == "df_append":
                g, h = args.build(), f.copy()
                args = [[f, g, h], g, h]
                call = lambda x, a=args[0]: df_append(a, duplicate_msg=False)  # noqa
        before, abefore = image(o, f), [frozen(a) for a in args]
        o.event("op", "{}", label)
        res = o.call(label, call, f)
        o.cover(label)
        same(o, before, image(o, f), label + " changed the frame it was called on")
        same(o, abefore, [frozen(a) for a in args], label + " changed its arguments")
        again = o.call(label, call, f)
        same(o, frozen(res), frozen(again), label + " gives something else when repeated")
        if inplace is not None:
            g = f.copy()
            r = o.call(label + " inplace", inplace, g)
            o.check(r is None, label + " inplace returns something")
            same(o, image(o, res), image(o, g), label + ": in-place form differs from the returned one")
            same(o, before, image(o, f), label + " inplace on a copy changed the original")
            o.cover("inplace form")
        if len(m.rows) > 1:
            o.nontrivial()
        o.state(label, len(m.rows) > 1)
        if rng.random() < 0.6 or not isinstance(res, (ScmDataFrameBase, pd.DataFrame, pd.Series, np.ndarray)):
            o.cover("result changed")
            disturb(rng, o, res)
            same(o, before, image(o, f), "changing the result of {} changed its source".format(label))
            same(o, abefore, [frozen(a) for a in args], "changing the result of {} changed its arguments".format(label))
        else:
            o.cover("source changed")
            old = frozen(res)
            g = f.copy()
            rest = [a for a in args if isinstance(a, ScmDataFrameBase)]
            disturb(rng, o, f)
            for a in rest:
                disturb(rng, o, a)
            same(o, old, frozen(res), "changing the source of {} changed its result".format(label))
            f = g
            same(o, before, image(o, f), "changing the source of copy() changed its result")


def arguments(rng, o):
    """arguments may be changed afterwards"""
    m = scmops.start(rng, n=rng.randint(1, 5), nan=0)
    f = m.build()
    kind = rng.choice(["set time", "set_meta list", "set_meta series", "interpolate", "append", "rename", "filter"])
    o.cover(kind)
    if kind == "set time":
        ts = [t + 3600 for t in m.times]
        arg = gen.as_dt64(ts) if rng.random() < 0.5 else np.array([ref.from_seconds(t) for t in ts], dtype=object)
        f["time"] = arg
        before = image(o, f)
        arg[:] = arg[0]
        res = f
    elif kind == "set_meta list":
        arg = rng.choice([np.arange(len(m.rows)), np.array(["a%d" % i for i in range(len(m.rows))], dtype=object), list(range(len(m.rows))), np.arange(len(m.rows)) * 0.5])
        f["new"] = arg
        res, before = f, image(o, f)
        arg[0] = arg[-1] if len(m.rows) > 1 else 77
    elif kind == "set_meta series":
        arg = pd.Series([1.5], index=pd.Index([m.rows[0]["scenario"]], name="scenario"))
        f["new"] = arg
        res, before = f, image(o, f)
        arg.iloc[0] = 99
        arg.index.name = "x"
    elif kind == "interpolate":
        if len(m.times) < 3 or m.times[-1] - m.times[0] < 100:
            return
        arg = gen.as_dt64([m.times[0], (m.times[0] + m.times[-1]) // 2, m.times[-1]])
        res = f.interpolate(arg)
        before = image(o, res)
        arg[:] = arg[0]
    elif kind == "append":
        g = scmops.start(rng, n=2).build()
        res = f.append(g, duplicate_msg=False)
        before = image(o, res)
        disturb(rng, o, g)
    elif kind == "rename":
        arg = {"scenario": {m.rows[0]["scenario"]: "new"}}
        res = f.rename(arg)
        before = image(o, res)
        arg["scenario"].clear()
    else:
        arg = [m.rows[0]["scenario"]]
        if "*" in arg[0]:
            return
        res = f.filter(scenario=arg)
        before = image(o, res)
        arg[0] = "nope"
    o.event("argument", "{}", kind)
    same(o, before, image(o, res), "changing an argument of {} afterwards changed the frame".format(kind))
    o.cover("argument changed later")
    o.nontrivial()


def to_sets(rng, o):
    """to_parameterset: independent of the frame"""
    n = rng.randint(1, 4)
    ts = [gen.year_start(2000 + 5 * i) for i in range(rng.randint(3, 6))]
    rows = []
    for i in range(n):
        u = rng.choice(sorted(scm.UNIT))
        rows.append({"model": "m", "scenario": "s", "region": rng.choice(["World", "World|A", "World|B"]), "variable": "var{}".format(i), "unit": u, "ecs": 3.0})
    m = scm.Model(rows, ts, scm.matrix(rng, n, len(ts)))
    f = m.build()
    before = image(o, f)
    ps = o.call("to_parameterset", f.to_parameterset)
    o.cover("to_parameterset")
    same(o, before, image(o, f), "to_parameterset changed the frame")
    tps, views = f.time_points, []
    for r, v in zip(rows, m.vals):
        k = scm.kind(r)
        full = tps if k == "point" else gen.as_dt64(scm.extended(ts))
        views.append((ps.timeseries(r["variable"], r["unit"], full, region=r["region"], timeseries_type=k), v))
    if rng.random() < 0.5:
        disturb(rng, o, f)
        for w, v in views:
            o.close(np.array(w.values), v, "changing the frame changed the parameter set", rtol=1e-9, atol=1e-9 * max(map(abs, v)))
        o.cover("source changed")
    else:
        for w, v in views:
            w.values[:] = 5.0 if rng.random() < 0.5 else [5.0] * len(v)
            w.values = np.full(len(v), 6.0)
        same(o, before, image(o, f), "changing the parameter set changed the frame")
        o.cover("result changed")
    o.nontrivial()


FAMILIES = [Family("run", run, 80, 1500), Family("arguments", arguments, 60, 900), Family("to_sets", to_sets, 40, 500)]
FAMILIES += [
    Family("large run", gen.large(run), 6, 75),
]
