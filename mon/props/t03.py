import math

import numpy as np

from openscm.core.parameters import ParameterType
from openscm.core.time import ExtrapolationType, InterpolationType
from openscm.errors import InsufficientDataError

from openscm.scmdataframe import ScmDataFrame

from mon import gen, ref
from mon.core import Family
from mon.props.t01 import make
from mon.pset import ParameterSet, nvalues
from mon.tsmodel import conv_tol

RULE = (
    "a case is a source axis and a target axis placed exactly at, one second inside or one second outside the ends of the source "
    "range (or anywhere), for points and averages, through converters and through views; the outcome (raise or finite values) is "
    "predicted from the ranges alone; non-trivial: a target end is within one second of a source end"
)
COVER = [
    "inside succeeds", "ends included", "one second before", "one second after", "constant extrapolates", "linear extrapolates",
    "names in upper and lower case", "unknown names refused",
    "short series", "target begins too early", "target begins too early but ends within", "target entirely before", "empty series", "view out of range", "view in range", "view short", "convert_to out of range", "far outside", "lengths",
]
ASSUMPTIONS = ["a target axis whose second time point precedes the source is refused at construction whatever the extrapolation (pinned by the existing tests)"]
TYPES = {"point": ParameterType.POINT_TIMESERIES, "average": ParameterType.AVERAGE_TIMESERIES}


def boundary_target(rng, src, o):
    lo, hi = src[0], src[-1]
    n = rng.randint(3, 9)
    left = rng.choice(["in", "at", "at", "before1", "before", "in1"])
    right = rng.choice(["in", "at", "at", "after1", "after", "in1"])
    t = set(gen.within(rng, src, n))
    t -= {lo, hi}
    span = hi - lo
    t.add({"in": lo + span // 3, "at": lo, "before1": lo - 1, "before": lo - rng.randint(2, span), "in1": lo + 1}[left])
    t.add({"in": hi - span // 3, "at": hi, "after1": hi + 1, "after": hi + rng.randint(2, span), "in1": hi - 1}[right])
    t = sorted(t)
    if len(t) > 1 and t[1] < lo:
        t.insert(1, lo)
        t = sorted(set(t))
    return t, left, right


def outcome(o, label, f, ok, kind, src, v, tgt, ex):
    if ok:
        got = o.returns(label, f)
        got = np.array([float(x) for x in got])
        o.check(len(got) == nvalues(kind, tgt), "wrong number of values", got=len(got))
        o.check(bool(np.isfinite(got).all()), "values invented or missing: not finite", got=got.tolist())
        o.close(got, ref.convert(kind, src, v, tgt, ex), "values of an accepted conversion differ", rtol=1e-9, atol=conv_tol(kind, src, v, tgt, ex))
    else:
        o.raises(InsufficientDataError, label, f)


def converters(rng, o):
    kind = rng.choice(["point", "average"])
    src = gen.axis(rng, lo=4, hi=10)
    tgt, left, right = boundary_target(rng, src, o)
    v = gen.values(rng, nvalues(kind, src))
    o.event("axes", repr([src, tgt, v]))
    res = [rng.choice(["s", "ms", "us"]) for _ in range(2)]
    inside = tgt[0] >= src[0] and tgt[-1] <= src[-1]
    if len(tgt) < 2:
        return
    for ex in ["none", "constant", "linear"]:
        c = o.returns("converter {}".format(ex), make, gen.as_dt64(src, res[0]), gen.as_dt64(tgt, res[1]), ex, TYPES[kind])
        ok = inside or ex != "none"
        outcome(o, "{} convert_from {} {} {}".format(kind, ex, left, right), lambda: c.convert_from(np.array(v)), ok, kind, src, v, tgt, ex)
        o.check(c.source_length == nvalues(kind, src) and c.target_length == nvalues(kind, tgt), "reported lengths")
        o.cover("lengths")
        if ok and ex != "none" and not inside:
            o.cover(ex + " extrapolates")
        # the other direction: from the target axis to the source axis
        if nvalues(kind, tgt) >= 3:
            w = gen.values(rng, nvalues(kind, tgt))
            ok2 = (src[0] >= tgt[0] and src[-1] <= tgt[-1]) or ex != "none"
            outcome(o, "{} convert_to {}".format(kind, ex), lambda: c.convert_to(np.array(w)), ok2, kind, tgt, w, src, ex)
            if not ok2:
                o.cover("convert_to out of range")
        # too few values, whatever the axes
        for m in rng.sample([0, 1, 2], 2):
            x = np.array(gen.values(rng, m, "normal")) if m else np.array([])
            o.raises(InsufficientDataError, "{} values convert_from".format(m), c.convert_from, x)
            o.raises(InsufficientDataError, "{} values convert_to".format(m), c.convert_to, x)
            o.cover("short series" if m else "empty series")
    if inside:
        o.cover("inside succeeds")
        if tgt[0] == src[0] and tgt[-1] == src[-1]:
            o.cover("ends included")
    if left == "before1":
        o.cover("one second before")
    if right == "after1":
        o.cover("one second after")
    if left == "before" or right == "after":
        o.cover("far outside")
    if {left, right} & {"before1", "after1", "at", "in1"}:
        o.nontrivial()
    o.state(kind, left, right, inside)


def views(rng, o):
    kind = rng.choice(["point", "average"])
    src = gen.axis(rng, lo=4, hi=9)
    p = ParameterSet()
    a = p.timeseries("X", "K", gen.as_dt64(src), timeseries_type=kind)
    v = gen.values(rng, nvalues(kind, src))
    a.values = np.array(v)
    tgt, left, right = boundary_target(rng, src, o)
    if len(tgt) < 4:
        return
    o.event("axes", repr([src, tgt, v]))
    inside = tgt[0] >= src[0] and tgt[-1] <= src[-1]
    for ex in ["none", "constant", "linear"]:
        w = o.returns("view", p.timeseries, "X", "K", gen.as_dt64(tgt), timeseries_type=kind, extrapolation=ex)
        o.check(w.length == nvalues(kind, tgt), "view length")
        outcome(o, "{} view {} {} {}".format(kind, ex, left, right), lambda: w.values, inside or ex != "none", kind, src, v, tgt, ex)
        o.cover("view in range" if inside else "view out of range")
    # short series through views
    m = rng.choice([2, 3] if kind == "average" else [2])
    q = p.timeseries("Short", "K", gen.as_dt64(src[:m]), timeseries_type=kind)
    o.raises(InsufficientDataError, "write short series", setattr, q, "values", [1.0] * nvalues(kind, src[:m]))
    o.check(q.empty, "short series stored")
    s = p.timeseries("X", "K", gen.as_dt64(src[:m]), timeseries_type=kind)
    got = [float(x) for x in s.values]  # reading few points of a long series is fine
    o.close(got, ref.convert(kind, src, v, src[:m]), "few points of a long series", rtol=1e-9, atol=conv_tol(kind, src, v, src[:m], "none"))
    o.raises(InsufficientDataError, "write through a short view", setattr, s, "values", [1.0] * nvalues(kind, src[:m]))
    o.close([float(x) for x in a.values], v, "values after refused short write", rtol=1e-9, atol=conv_tol(kind, src, v, src, "none"))
    o.cover("view short")
    o.nontrivial()


def early(rng, o):
    """the second target point is before the source: there is nothing the first target period could be calculated from"""
    kind = rng.choice(["point", "average"])
    src = gen.axis(rng, lo=4, hi=10)
    span = src[-1] - src[0]
    n = rng.randint(2, 4)
    back = sorted(rng.sample(range(1, span + 1), n), reverse=True) if span > n else list(range(n, 0, -1))
    tgt = [src[0] - d for d in back]
    if rng.random() < 0.3:
        tgt[-1] = src[0] - 1
    if rng.random() < 0.7:
        tgt = tgt + gen.within(rng, src, rng.randint(1, 5)) + ([src[-1] + rng.randint(1, span)] if rng.random() < 0.3 else [])
        o.cover("target begins too early but ends within")
    else:
        o.cover("target entirely before")
    o.event("early target", repr([kind, src, tgt]))
    for ex in ["none", "constant", "linear"]:
        o.raises(InsufficientDataError, "converter " + ex, make, gen.as_dt64(src), gen.as_dt64(tgt), ex, TYPES[kind])
    o.cover("target begins too early")
    o.state(kind, n, len(tgt))
    o.nontrivial()
    # the boundary: a second point exactly at the start of the source is accepted
    tgt = [src[0] - rng.randint(1, span), src[0]] + [t for t in gen.within(rng, src, 3) if t > src[0]]
    v = gen.values(rng, nvalues(kind, src))
    for ex in ["constant", "linear"]:
        c = o.returns("converter {}".format(ex), make, gen.as_dt64(src), gen.as_dt64(tgt), ex, TYPES[kind])
        outcome(o, "second point at the start", lambda: c.convert_from(np.array(v)), True, kind, src, v, tgt, ex)


def names(rng, o):
    """extrapolation is only ever what was asked for, however its name is written; names nobody knows are refused"""
    kind = rng.choice(["point", "average"])
    src = gen.axis(rng, lo=4, hi=8)
    v = gen.values(rng, nvalues(kind, src))
    tgt, left, right = boundary_target(rng, src, o)
    if len(tgt) < 4:
        return
    inside = tgt[0] >= src[0] and tgt[-1] <= src[-1]
    p = ParameterSet()
    a = p.timeseries("X", "K", gen.as_dt64(src), timeseries_type=kind)
    a.values = np.array(v)

    def written(name):
        return rng.choice([name, name.upper(), name.capitalize(), "".join(c.upper() if rng.random() < 0.5 else c for c in name)])

    for ex in rng.sample(["none", "constant", "linear"], 2):
        enum = ExtrapolationType[ex.upper()]
        o.check(o.returns("extrapolation type of a name", ExtrapolationType.from_extrapolation_type, written(ex)) is enum, "the name is another type", name=ex)
        o.check(ExtrapolationType.from_extrapolation_type(enum) is enum, "the type is another type")
        w = o.returns("view", p.timeseries, "X", "K", gen.as_dt64(tgt), timeseries_type=written(kind), extrapolation=rng.choice([enum, written(ex)]), interpolation=rng.choice([InterpolationType.LINEAR, written("linear")]))
        outcome(o, "{} view {} {} {}".format(kind, ex, left, right), lambda: w.values, inside or ex != "none", kind, src, v, tgt, ex)
        o.cover("names in upper and lower case")
    unknown = rng.choice(["cubic", "nearest", "nane", "non", "", "constan", "linear2", " linear", "constant,linear", "const", "extrapolate", "0", "none "])
    o.raises(Exception, "unknown extrapolation", p.timeseries, "X", "K", gen.as_dt64(tgt), timeseries_type=kind, extrapolation=unknown)
    o.raises(Exception, "unknown extrapolation", ExtrapolationType.from_extrapolation_type, unknown)
    o.raises(Exception, "unknown interpolation", p.timeseries, "X", "K", gen.as_dt64(tgt), timeseries_type=kind, interpolation=rng.choice(["cubic", "nearest", "", "none", "lin"]))
    o.raises(Exception, "unknown timeseries type", p.timeseries, "X", "K", gen.as_dt64(tgt), timeseries_type=rng.choice(["points", "averages", "", "mean", "none", "avg", "scalar"]))
    frame = ScmDataFrame(
        np.array(v)[:, None], index=gen.as_dt64(src)[: len(v)],
        columns={"model": ["m"], "scenario": ["s"], "region": ["World"], "variable": ["X"], "unit": ["K"], "parameter_type": ["point"]},
    )
    o.raises(Exception, "unknown extrapolation of a frame", frame.interpolate, gen.as_dt64(tgt), extrapolation_type=unknown)
    o.raises(Exception, "unknown interpolation of a frame", frame.interpolate, gen.as_dt64(tgt), interpolation_type="cubic")
    o.close([float(x) for x in a.values], v, "values after refused requests", rtol=1e-9, atol=conv_tol(kind, src, v, src, "none"))
    o.cover("unknown names refused")
    o.state("names", kind, unknown)
    o.nontrivial()


FAMILIES = [Family("names", names, 600, 3000), Family("converters", converters, 1400, 20000), Family("early", early, 300, 3000), Family("views", views, 800, 8000)]
FAMILIES += [
    Family("large converters", gen.large(converters), 46, 1000),
]
