"""
Random operations on frames with their meaning on the model (mon/scm.py).
"""
import datetime
import math

import numpy as np
import pandas as pd

from . import gen, ref, scm


class Op:
    """one operation with concrete arguments

    run(f) returns the result and leaves f alone (or None if only in place),
    inplace(f) changes f (or None), exp/tol/order is what the result has to be
    """

    def __init__(self, label, exp, run=None, inplace=None, tol=0.0, order=True, args=(), info=""):
        self.label, self.exp, self.run, self.inplace, self.tol, self.order, self.args, self.info = label, exp, run, inplace, tol, order, list(args), info


def textual(m, missing=True):
    return [c for c in m.cols if all(isinstance(scm.norm(r.get(c)), (str, type(None)) if missing else str) for r in m.rows)]


def start(rng, n=None, nan=None, times=None):
    ts = times or scm.times(rng, n=rng.randint(2, 7))
    if ref.from_seconds(ts[-1]).year > 9000:
        ts = [gen.year_start(2000 + 7 * i) for i in range(len(ts))]
    return scm.model(rng, n=n or rng.randint(1, 7), times_=ts, nan=nan, units=sorted(scm.UNIT))


def filter_(rng, m):
    kw, rows, cols = {}, list(range(len(m.rows))), list(range(len(m.times)))
    if rng.random() < 0.75:
        c = rng.choice(textual(m))
        vals = {scm.norm(rng.choice(m.rows).get(c)) or "" for _ in range(rng.randint(1, 3))}
        if any("*" in v for v in vals):
            return None
        kw[c] = sorted(vals)
        rows = [i for i in rows if (scm.norm(m.rows[i].get(c)) or "") in vals]
    if rng.random() < 0.4:
        ys = {rng.choice(m.datetimes()).year for _ in range(rng.randint(1, 4))}
        kw["year"] = sorted(ys)
        cols = [j for j in cols if m.datetimes()[j].year in ys]
    keep = rng.random() < 0.6
    vals = []
    for i, v in enumerate(m.vals):
        vals.append([x if ((i in rows and j in cols) == keep) else float("nan") for j, x in enumerate(v)])
    exp = scm.Model(m.rows, m.times, vals).compact()
    if not exp.rows:
        return None
    return Op("filter", exp, lambda f: f.filter(keep=keep, **kw), lambda f: f.filter(keep=keep, inplace=True, **kw), args=[kw], info=(keep, kw))


def append_(rng, m):
    from .props.s05 import union

    other = start(rng, n=rng.randint(1, 3))
    if rng.random() < 0.6:
        other.times = list(m.times)
        other.vals = scm.matrix(rng, len(other.rows), len(m.times))
    if rng.random() < 0.4:  # true duplicates
        other.rows[0] = dict(rng.choice(m.rows))
    if not other.unique():
        return None
    exp = union([m, other])[0]
    g = other.build()
    return Op("append", exp, lambda f: f.append(g, duplicate_msg=False), lambda f: f.append(g, duplicate_msg=False, inplace=True), tol=[[1e-12 * abs(x) if x == x else 0.0 for x in v] for v in exp.vals], order=False, args=[g], info=(len(other.rows), len(other.times)))


def rename_(rng, m):
    c = rng.choice(textual(m))
    have = sorted({scm.norm(r.get(c)) for r in m.rows if scm.norm(r.get(c)) is not None})
    if not have:
        return None
    if c in ("unit", "parameter_type", "unit_context"):
        return None
    k = rng.randrange(3)
    if k == 0 and len(have) > 1:
        a, b = rng.sample(have, 2)
        mapping = {a: b, b: a}
    elif k == 1:
        mapping = {a: "new|" + a for a in rng.sample(have, rng.randint(1, len(have)))}
    else:
        mapping = {rng.choice(have): rng.choice(["renamed", "World", "x"]), "not there": "y"}
    exp = m.copy()
    for r in exp.rows:
        if scm.norm(r.get(c)) in mapping:
            r[c] = mapping[r[c]]
    if not exp.unique():
        return None
    arg = {c: mapping}
    return Op("rename", exp, lambda f: f.rename(arg), lambda f: f.rename(arg, inplace=True), args=[arg], info=arg)


def _values(rng, n):
    k = rng.randrange(4)
    if k == 0:
        return [rng.choice(["a", "b", "c d", "World"]) for _ in range(n)]
    if k == 1:
        return [rng.randint(0, 9) for _ in range(n)]
    if k == 2:
        return [round(rng.uniform(0, 5), 3) for _ in range(n)]
    return [rng.choice(["a", "b"]) for _ in range(n)]


def _name(rng, m):
    return rng.choice(["new", "tag", "zeta", "abc"] + m.cols[5:] + ["scenario", "region", "model"])


def set_scalar(rng, m):
    name = _name(rng, m)
    v = _values(rng, 1)[0] if name not in scm.REQUIRED else "set"
    exp = m.copy()
    for r in exp.rows:
        r[name] = v
    if not exp.unique() or name in ("parameter_type", "unit_context"):
        return None
    item = rng.random() < 0.5

    def do(f):
        if item:
            f[name] = v
        else:
            f.set_meta(v, name)

    return Op("set_meta scalar", exp, None, do, info=(name, v))


def set_list(rng, m):
    name = _name(rng, m)
    vs = _values(rng, len(m.rows)) if name not in scm.REQUIRED else ["set%d" % rng.randint(0, 2) for _ in m.rows]
    exp = m.copy()
    for r, v in zip(exp.rows, vs):
        r[name] = v
    if not exp.unique() or name in ("parameter_type", "unit_context"):
        return None
    arg = rng.choice([list, list, np.array, lambda v: pd.Series(v).values])(vs)
    item = rng.random() < 0.5

    def do(f):
        if item:
            f[name] = arg
        else:
            f.set_meta(arg, name=name)

    return Op("set_meta list", exp, None, do, args=[arg], info=(name, vs))


def set_indexed(rng, m):
    """through an index of some metadata columns"""
    complete = [c for c in m.cols if all(scm.norm(r.get(c)) is not None for r in m.rows)]
    names = rng.sample(complete, rng.randint(1, min(4, len(complete))))
    keys = [tuple(scm.norm(r.get(c)) for c in names) for r in m.rows]
    chosen = sorted(set(keys), key=repr)
    rng.shuffle(chosen)
    if rng.random() < 0.6:
        chosen = chosen[: rng.randint(1, len(chosen))]
    name = _name(rng, m)
    if name in ("parameter_type", "unit_context"):
        return None
    vs = _values(rng, len(chosen)) if name not in scm.REQUIRED else ["set%d" % i for i in range(len(chosen))]
    if name not in scm.REQUIRED and rng.random() < 0.15:
        # known values can be replaced by missing ones
        vs = [None if rng.random() < 0.5 else v for v in vs]
    new = dict(zip(chosen, vs))
    exp = m.copy()
    for r, k in zip(exp.rows, keys):
        r[name] = new[k] if k in new else r.get(name)
    if not exp.unique():
        return None
    if len(names) == 1:
        index = pd.Index([k[0] for k in chosen], name=names[0])
    else:
        index = pd.MultiIndex.from_tuples(chosen, names=names)
    form = rng.choice(["series", "item", "index", "frame"])
    series = pd.Series(vs, index=index, name=rng.choice([name, None, "else"]))
    frame = pd.DataFrame({c: [k[i] for k in chosen] for i, c in enumerate(names)})
    frame["not metadata"] = 1

    def do(f):
        if form == "series":
            f.set_meta(series, name=name)
        elif form == "item":
            f[name] = series
        elif form == "index":
            f.set_meta(list(vs), name=name, index=index)
        else:
            f.set_meta(list(vs), name=name, index=frame)

    return Op("set_meta " + form, exp, None, do, args=[series, frame], info=(name, names, chosen, vs))


def set_derived(rng, m):
    """a column computed from another one"""
    c = rng.choice(textual(m, missing=False))
    name = "derived"
    exp = m.copy()
    for r in exp.rows:
        r[name] = r[c] + "!"
    if not exp.unique():
        # it replaces the column of an earlier step which told rows apart
        return None

    def do(f):
        f[name] = f[c] + "!"

    return Op("set_meta derived", exp, None, do, info=(c,))


def convert_(rng, m):
    r0 = rng.choice(m.rows)
    if scm.norm(r0["unit"]) not in scm.UNIT:
        return None
    fam = scm.UNIT[r0["unit"]][0]
    target = rng.choice(ref.FAMILIES[fam]).name
    which = [i for i, r in enumerate(m.rows) if scm.UNIT[r["unit"]][0] == fam]
    units = sorted({m.rows[i]["unit"] for i in which})
    if any("*" in u for u in units):
        return None
    kw = {"unit": target}
    if len(which) < len(m.rows) or rng.random() < 0.5:
        if rng.random() < 0.5 and not any("*" in m.rows[i]["variable"] for i in which):
            variables = {m.rows[i]["variable"] for i in which[: rng.randint(1, len(which))]}
            which = [i for i, r in enumerate(m.rows) if r["variable"] in variables]
            if not all(scm.UNIT[m.rows[i]["unit"]][0] == fam for i in which):
                return None
            kw["variable"] = sorted(variables)
        else:
            return _convert_by_unit(rng, m, fam, target)
    exp, tol = scm.converted(m, which, target)
    if not exp.unique():
        return None
    return Op("convert_unit", exp, lambda f: f.convert_unit(**kw), lambda f: f.convert_unit(inplace=True, **kw), tol=tol, args=[kw], info=kw)


def _convert_by_unit(rng, m, fam, target):
    """filters named `unit` cannot be given; select by another column"""
    c = rng.choice([c for c in textual(m, missing=False) if c != "unit"])
    vals = {r[c] for r in m.rows if scm.UNIT[r["unit"]][0] == fam}
    which = [i for i, r in enumerate(m.rows) if r[c] in vals]
    if any("*" in v for v in vals) or not all(scm.UNIT[m.rows[i]["unit"]][0] == fam for i in which):
        return None
    exp, tol = scm.converted(m, which, target)
    if not exp.unique():
        return None
    kw = {"unit": target, c: sorted(vals)}
    return Op("convert_unit", exp, lambda f: f.convert_unit(**kw), lambda f: f.convert_unit(inplace=True, **kw), tol=tol, args=[kw], info=kw)


def set_time(rng, m):
    n = len(m.times)
    ts = scm.times(rng, n=n)[:n]
    if ref.from_seconds(ts[-1]).year > 9000:
        ts = [gen.year_start(1900 + 3 * i) for i in range(n)]
    if rng.random() < 0.25:
        rng.shuffle(ts)
    dts = [ref.from_seconds(t) for t in ts]
    exp = scm.Model(m.rows, ts, m.vals)
    arg = rng.choice([lambda: dts, lambda: gen.as_dt64(ts), lambda: pd.Index(dts, dtype=object)])()
    if all((d.month, d.day, d.hour, d.minute, d.second) == (1, 1, 0, 0, 0) for d in dts) and rng.random() < 0.5:
        arg = [d.year for d in dts]

    def do(f):
        f["time"] = arg

    return Op("set time", exp, None, do, args=[arg], info=(str(dts[0]), n))


def interpolate_(rng, m):
    if len(m.times) < 3 or any(math.isnan(x) for v in m.vals for x in v):
        return None
    if any(r.get("parameter_type") is None and scm.norm(r["unit"]) not in scm.UNIT for r in m.rows):
        return None
    m = m.ordered()
    n = rng.randint(2, 6)
    lo, hi = m.times[0], m.times[-1]
    if hi - lo < 10 * n:
        return None
    extrapolation = rng.choice(["constant", "linear", "constant"])
    if rng.random() < 0.5:
        target = sorted({lo + rng.randrange(hi - lo + 1) for _ in range(n)} | {lo, hi})
    else:
        target = sorted({lo + rng.randrange(hi - lo + 1) for _ in range(n)} | {hi + rng.randrange(1, hi - lo + 1)})
    if len(target) < 2 or ref.from_seconds(m.times[0]).year < 2 or 2 * target[-1] - target[0] > gen.year_start(9990):
        return None
    exp, tol = scm.interpolated(m, target, extrapolation)
    if not exp.unique():
        return None
    arg = rng.choice([lambda: [ref.from_seconds(t) for t in target], lambda: gen.as_dt64(target)])()
    return Op("interpolate", exp, lambda f: f.interpolate(arg, extrapolation_type=extrapolation), None, tol=tol, args=[arg], info=(extrapolation, len(target)))


def copy_(rng, m):
    return Op("copy", m.copy(), lambda f: f.copy(), None)


ALL = [filter_, append_, rename_, set_scalar, set_list, set_indexed, set_indexed, set_derived, convert_, convert_, set_time, interpolate_, copy_]


def random_op(rng, m, makers=None):
    for _ in range(50):
        op = rng.choice(makers or ALL)(rng, m)
        if op is not None:
            return op
    return copy_(rng, m)


def frozen(x):
    """a comparable image of an argument"""
    if isinstance(x, dict):
        return tuple((k, frozen(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return tuple(frozen(v) for v in x)
    if isinstance(x, np.ndarray):
        return (str(x.dtype), x.shape, tuple(frozen(v) for v in x.ravel().tolist()))
    if isinstance(x, pd.DataFrame):
        return (tuple(map(str, x.columns)), tuple(x.columns.names), tuple(map(str, x.index)), tuple(x.index.names), tuple(frozen(v) for v in x.values.ravel().tolist()))
    if isinstance(x, pd.Series):
        return (x.name, tuple(map(str, x.index)), tuple(x.index.names), tuple(frozen(v) for v in x.values.tolist()))
    if isinstance(x, pd.Index):
        return (tuple(x.names), tuple(map(str, x)))
    if hasattr(x, "timeseries") and not hasattr(x, "time_points"):  # pyam
        return ("pyam", frozen(x.data), frozen(x.meta))
    if hasattr(x, "timeseries") and hasattr(x, "meta"):
        ts = x.timeseries() if len(x) else None
        return ("frame", frozen(x.meta), tuple(map(str, x.time_points)), None if ts is None else tuple(map(repr, ts.values.ravel().tolist())))
    return repr(x)
