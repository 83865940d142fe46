import datetime
import math
import re

import numpy as np
import pandas as pd

from openscm.core.units import DimensionalityError, UndefinedUnitError
from openscm.errors import InsufficientDataError
from openscm.scmdataframe import df_append

from mon import gen, ref, scm, scmops
from mon.core import Family
from mon.props.s07 import image
from mon.scmops import frozen

RULE = (
    "a case is a random history of valid operations on two equal frames; on one of them random failing calls (in-place forms included) are put between the valid ones; images "
    "are compared around every failing call and the twins after every valid step, which also has to agree with the model; non-trivial: at least three different failing calls "
    "and two valid operations after one of them"
)
COVER = [
    "rename to duplicates", "rename to duplicates in place", "rename unknown column", "rename unknown column in place", "rename second column bad in place", "set_meta wrong length", "set item wrong length",
    "set_meta without name", "set_meta duplicated index", "set_meta unknown index", "set_meta partly unknown index", "set_meta index not an index", "time wrong length", "time unreadable", "filter unknown column",
    "filter unknown column in place", "filter bad month in place", "filter bad type in place", "convert to unknown unit", "convert to unknown unit in place", "convert incompatible", "convert incompatible in place",
    "convert unknown context in place", "convert unknown filter in place", "append bad option", "append bad option in place", "append unreadable", "append unreadable in place", "df_append in place not a frame",
    "process_over", "unknown item", "timeseries not unique", "interpolate too few", "interpolate beyond", "resample bad rule", "relative_to_ref_period_mean unknown filter", "to_csv nowhere", "to_parameterset refused",
    "mixed units in place", "arguments unchanged", "valid operation afterwards", "missing values", "missing metadata", "several failures in a row", "pattern regexp invalid in place", "set_meta wrong length existing column",
    "append duplicates bad option later in list",
]
ASSUMPTIONS = ["state is compared through the public read interface"]
TECHNIQUE = "fault insertion into histories: before/after images around each rejected call, twin run without the rejected calls, model after each valid step"


def bad_calls(rng, m):
    """[(label, exceptions, call, arguments)] which have to fail on a frame with the content of m"""
    out = []

    def add(label, exc, call, *args):
        out.append((label, exc, call, list(args)))

    n, t = len(m.rows), len(m.times)
    text = scmops.textual(m, missing=False)
    # rename to duplicates
    for i in range(n):
        for j in range(n):
            diff = [c for c in m.cols if scm.typed(m.rows[i].get(c)) != scm.typed(m.rows[j].get(c))]
            if i < j and len(diff) == 1 and diff[0] in text:
                mp = {diff[0]: {m.rows[i][diff[0]]: m.rows[j][diff[0]]}}
                first = dict({c: {m.rows[0][c]: "renamed"} for c in text if c != diff[0] and rng.random() < 0.5}, **mp)
                arg = rng.choice([mp, first])
                add("rename to duplicates", ValueError, lambda f, a=arg: f.rename(a), arg)
                add("rename to duplicates in place", ValueError, lambda f, a=arg: f.rename(a, inplace=True), arg)
    bad = {"nothing": {"a": "b"}}
    add("rename unknown column", ValueError, lambda f: f.rename(bad), bad)
    add("rename unknown column in place", ValueError, lambda f: f.rename(bad, inplace=True), bad)
    c = rng.choice(text)
    second = {c: {m.rows[0][c]: "renamed"}, "nothing": {"a": "b"}}
    add("rename second column bad in place", ValueError, lambda f: f.rename(second, inplace=True), second)
    # metadata
    wrong = rng.choice([n + 1, n + 3, max(n - 1, 0) if n > 2 else n + 2])
    vals = rng.choice([["v%d" % i for i in range(wrong)], list(range(wrong)), np.arange(wrong)])
    name = rng.choice(["new", "scenario", "zeta"])
    add("set_meta wrong length", ValueError, lambda f: f.set_meta(vals, name=name), vals)
    add("set_meta wrong length existing column", ValueError, lambda f: f.set_meta(vals, name=rng.choice(m.cols)), vals)
    add("set item wrong length", ValueError, lambda f: f.__setitem__(name, vals), vals)
    add("set_meta without name", ValueError, lambda f: f.set_meta(["x"] * n))
    col = rng.choice(text)
    have = sorted({r[col] for r in m.rows})
    dup = pd.Series(range(2), index=pd.Index([have[0], have[0]], name=col))
    add("set_meta duplicated index", ValueError, lambda f: f.set_meta(dup, name=name), dup)
    unknown = pd.Series(["x"], index=pd.Index(["not there"], name=col))
    add("set_meta unknown index", ValueError, lambda f: f.set_meta(unknown, name=name), unknown)
    partly = pd.Series(["x", "y"], index=pd.Index([have[0], "not there"], name=col))
    add("set_meta partly unknown index", ValueError, lambda f: f.__setitem__(name, partly), partly)
    add("set_meta index not an index", ValueError, lambda f: f.set_meta(["x"] * n, name=name, index=list(range(n))))
    # time
    k = rng.choice([t + 1, t + 2] + ([t - 1] if t > 1 else []))
    tps = rng.choice([[datetime.datetime(2000 + i, 1, 1) for i in range(k)], list(range(2000, 2000 + k)), gen.as_dt64([i * 1000 for i in range(k)])])
    add("time wrong length", ValueError, lambda f: f.__setitem__("time", tps), tps)
    words = ["no time"] * t
    add("time unreadable", (ValueError, TypeError), lambda f: f.__setitem__("time", words), words)
    # filter
    kw = {rng.choice(["nothing", "ecs2", "unit_"]): "x"}
    if rng.random() < 0.5:
        kw = dict({"scenario": m.rows[0]["scenario"]}, **kw)
    add("filter unknown column", ValueError, lambda f: f.filter(**kw), kw)
    add("filter unknown column in place", ValueError, lambda f: f.filter(inplace=True, **kw), kw)
    add("filter bad month in place", ValueError, lambda f: f.filter(inplace=True, scenario=m.rows[0]["scenario"], month="Nomonth"))
    add("filter bad type in place", TypeError, lambda f: f.filter(inplace=True, keep=False, year="2000"))
    add("pattern regexp invalid in place", re.error, lambda f: f.filter(inplace=True, variable="(", regexp=True))
    # units
    if all(scm.norm(r["unit"]) in scm.UNIT for r in m.rows):
        units = {scm.UNIT[r["unit"]][0] for r in m.rows}
        u = rng.choice(["nounit", "GtX/a", "furlongs per blip"])
        add("convert to unknown unit", UndefinedUnitError, lambda f: f.convert_unit(u))
        add("convert to unknown unit in place", UndefinedUnitError, lambda f: f.convert_unit(u, inplace=True))
        target = rng.choice([x for f_, us in ref.FAMILIES.items() if f_ not in units | {"dimensionless"} for x in us] or [None])
        if target is not None:
            add("convert incompatible", DimensionalityError, lambda f: f.convert_unit(target.name))
            add("convert incompatible in place", DimensionalityError, lambda f: f.convert_unit(target.name, inplace=True))
        if len(units) > 1:
            own = scm.UNIT[m.rows[0]["unit"]][1].name
            if own != "concentration":
                add("mixed units in place", DimensionalityError, lambda f: f.convert_unit(own, inplace=True))
        own = rng.choice(ref.FAMILIES[scm.UNIT[m.rows[0]["unit"]][0]]).name
        add("convert unknown context in place", KeyError, lambda f: f.convert_unit(own, context="AR0", inplace=True))
        add("convert unknown filter in place", ValueError, lambda f: f.convert_unit(own, inplace=True, nothing="x"))
    # append
    twice = m.build()
    opt = rng.choice(["bad", "yes", "Warn", True, 3])
    add("append bad option", ValueError, lambda f: f.append(twice, duplicate_msg=opt), twice)
    add("append bad option in place", ValueError, lambda f: f.append(twice, inplace=True, duplicate_msg=opt), twice)
    first = scmops.start(rng, n=1)
    both = first.build()
    add("append duplicates bad option later in list", ValueError, lambda f: df_append([f, both, twice], inplace=True, duplicate_msg=opt), both, twice)
    junk = rng.choice([pd.DataFrame({"model": ["a"], "scenario": ["b"], "value": [1.0]}), "/nonexistent/verif.csv", 5, np.zeros((2, 2))])
    add("append unreadable", Exception, lambda f: f.append(junk), junk)
    add("append unreadable in place", Exception, lambda f: f.append(junk, inplace=True), junk)
    add("df_append in place not a frame", TypeError, lambda f: df_append([f.timeseries().reset_index(), f], inplace=True, duplicate_msg=False))
    # reading
    add("process_over", ValueError, lambda f: f.process_over("scenario", rng.choice(["sum", "std"])))
    item = rng.choice(["nothing", ["variable", "nothing"], 5])
    add("unknown item", KeyError, lambda f: f[item])
    for c in m.cols:
        if not m.unique([c]):
            add("timeseries not unique", ValueError, lambda f, c=c: f.timeseries([c]))
            break
    if all(scm.norm(r["unit"]) in scm.UNIT for r in m.rows) and not any(math.isnan(x) for v in m.vals for x in v):
        if t < 3 and t == 2:
            add("interpolate too few", InsufficientDataError, lambda f: f.interpolate([ref.from_seconds(x) for x in m.times] + [ref.from_seconds(m.times[-1] + 60)]))
        elif t >= 3 and max(m.times) < gen.year_start(9000):
            beyond = gen.as_dt64([min(m.times), max(m.times), 3 * max(m.times) - 2 * min(m.times) + 60 * 86400])
            add("interpolate beyond", InsufficientDataError, lambda f: f.interpolate(beyond, extrapolation_type="none"), beyond)
        add("resample bad rule", ValueError, lambda f: f.resample("xyz"))
    add("relative_to_ref_period_mean unknown filter", ValueError, lambda f: f.relative_to_ref_period_mean(nothing=[1, 2]))
    if not any(r.get(c) is None for r in m.rows for c in m.cols):
        add("to_csv nowhere", OSError, lambda f: f.to_csv("/nonexistent/verif/x.csv"))
    if len({tuple((c, scm.typed(r.get(c))) for c in m.cols if c not in ("variable", "region", "unit", "parameter_type")) for r in m.rows}) > 1:
        add("to_parameterset refused", ValueError, lambda f: f.to_parameterset())
    return out


def spoil(rng, o, f, m, done):
    """some failing calls"""
    k = rng.choice([1, 2, 4])
    calls = bad_calls(rng, m)
    for label, exc, call, args in rng.sample(calls, min(k, len(calls))):
        before, abefore = image(o, f), [frozen(a) for a in args]
        o.raises(exc, label, call, f)
        o.check(image(o, f) == before, label + " changed the frame", before=before, after=image(o, f))
        o.check([frozen(a) for a in args] == abefore, label + " changed its arguments")
        if args:
            o.cover("arguments unchanged")
        o.cover(label)
        done.append(label)
    if k > 1:
        o.cover("several failures in a row")


def history(rng, o):
    m = scmops.start(rng, n=rng.randint(1, 6))
    if rng.random() < 0.4 and len(m.rows) < 5:  # timeseries which differ in one column only
        new = dict(m.rows[0], scenario="only here")
        m.rows.append(new)
        m.vals.append(scm.matrix(rng, 1, len(m.times))[0])
        if not m.unique():
            return
    if any(math.isnan(x) for v in m.vals for x in v):
        o.cover("missing values")
    if any(r.get(c) is None for r in m.rows for c in m.cols):
        o.cover("missing metadata")
    f, twin = m.build(), m.build()
    done, after = [], 0
    makers = [scmops.filter_, scmops.append_, scmops.rename_, scmops.set_scalar, scmops.set_list, scmops.set_indexed, scmops.set_derived, scmops.convert_, scmops.set_time, scmops.interpolate_, scmops.copy_]
    for _ in range(gen.many(rng, rng.randint(2, 5))):
        spoil(rng, o, f, m, done)
        op = scmops.random_op(rng, m, makers)
        inplace = op.inplace is not None and (op.run is None or rng.random() < 0.6)
        o.event("valid", "{} {}", op.label, inplace)
        if inplace:
            o.call(op.label, op.inplace, f)
            op.inplace(twin)
        else:
            f, twin = o.call(op.label, op.run, f), op.run(twin)
        got = scm.read(o, f)
        scm.compare(o, got, op.exp, op.label + " after failing calls", order=op.order, atol=op.tol, failed=done[-4:])
        o.check(image(o, f) == image(o, twin), op.label + " gives something else after failing calls", failed=done[-4:], observed=frozen(f), expected=frozen(twin))
        o.cover("valid operation afterwards")
        after += 1
        m = got
        if not m.rows or not m.unique():
            return
    spoil(rng, o, f, m, done)
    o.check(image(o, f) == image(o, twin), "frames with and without failing calls differ", failed=done)
    if len(set(done)) >= 3 and after >= 2:
        o.nontrivial()
    o.state(len(set(done)), after, len(m.rows))


FAMILIES = [Family("history", history, 150, 2600)]
FAMILIES += [
    Family("large history", gen.large(history, 4), 8, 100),
]
