import numpy as np

from openscm.core.parameters import ParameterType
from openscm.core.time import ExtrapolationType, InterpolationType, TimeseriesConverter
from openscm.errors import InsufficientDataError

from mon import gen, ref
from mon.core import Family
from mon.pset import ParameterSet
from mon.tsmodel import conv_tol

KIND = "point"
TYPE = ParameterType.POINT_TIMESERIES
RULE = (
    "a case is a random source axis (annual, irregular, seconds to millennia, years 1-9998), target axis (same, refined, inside, "
    "reaching outside, single far points), values and datetime64 resolutions; conversions both ways are compared with exact "
    "rational linear interpolation; non-trivial: at least one target point lies strictly between two source points with different values"
)
COVER = ["target on source points", "between points", "constant left", "constant right", "linear left", "linear right", "round trip", "mixed resolutions", "numeric axes", "three points", "converter reused", "same array changed and converted again", "view", "interpolation given", "one target point", "view of one time point"]
ASSUMPTIONS = ["interpolation type is linear (the only one the library implements)", "reference is exact rational arithmetic; tolerance 1e-10 of the largest value, plus 1e-9 of the extrapolated size"]


def make(src, tgt, ex, kind=TYPE):
    return TimeseriesConverter(src, tgt, kind, InterpolationType.LINEAR, ExtrapolationType[ex.upper()])


def times(rng, ts, o):
    k = rng.random()
    if k < 0.15:
        o.cover("numeric axes")
        return np.array(ts, dtype=rng.choice([float, np.int64]))
    return gen.as_dt64(ts, rng.choice(["s", "s", "ms", "us"]))


def pair(rng, n_lo=3):
    src = gen.axis(rng, lo=n_lo, hi=14)
    r = rng.random()
    if r < 0.1:
        tgt, role = list(src), "same"
    elif r < 0.35:
        tgt, role = gen.refine(rng, src), "refine"
    elif r < 0.65:
        tgt, role = gen.within(rng, src, rng.randint(3, 20)), "within"
    else:
        tgt, role = gen.beyond(rng, src), "beyond"
    if len(tgt) < 3:
        tgt, role = list(src), "same"
    return src, tgt, role


def both(rng, o, src, tgt):
    """the two axes either both numeric or both datetime64 (numbers have no epoch)"""
    a = times(rng, src, o)
    b = times(rng, tgt, o)
    if (a.dtype.kind == "M") != (b.dtype.kind == "M"):
        b = np.array(tgt, dtype=float) if a.dtype.kind != "M" else gen.as_dt64(tgt)
    if a.dtype != b.dtype and a.dtype.kind == "M":
        o.cover("mixed resolutions")
    return a, b


def conversion(rng, o):
    src, tgt, role = pair(rng)
    ex = rng.choice(["constant", "linear"]) if role == "beyond" else rng.choice(["none", "constant", "linear"])
    v = gen.values(rng, len(src))
    a, b = both(rng, o, src, tgt)
    a0, b0, va = a.copy(), b.copy(), np.array(v)
    c = o.returns("TimeseriesConverter({}->{} points, {}, {}, {}->{})".format(len(src), len(tgt), role, ex, a.dtype, b.dtype), make, a, b, ex)
    for k in range(2):
        got = o.returns("convert_from", c.convert_from, va)
        exp = ref.convert(KIND, src, v, tgt, ex)
        o.event("values", repr([src, tgt, v]))
        o.close(got, exp, "point conversion is not the linear interpolation", rtol=1e-11, atol=conv_tol(KIND, src, v, tgt, ex), src=src, tgt=tgt, values=v, ex=ex)
        if k == 0 and rng.random() < 0.5:
            o.cover("converter reused")
            v = gen.values(rng, len(src))
            if rng.random() < 0.5:
                # the very same array, changed where it is; and the caller does as it likes with the result it was given
                o.cover("same array changed and converted again")
                va[:] = v
                if isinstance(got, np.ndarray) and got.flags.writeable:
                    got *= 3.0
            else:
                va = np.array(v)
        else:
            break
    o.check((a == a0).all() and (b == b0).all() and (va == np.array(v)).all(), "a conversion changed its arguments")
    o.check(c.source_length == len(src) and c.target_length == len(tgt), "reported lengths")
    inside = [t for t in tgt if src[0] < t < src[-1] and t not in src]
    if inside:
        o.cover("between points")
        if len(set(v)) > 1:
            o.nontrivial()
    if set(tgt) & set(src):
        o.cover("target on source points")
    if len(src) == 3:
        o.cover("three points")
    if tgt[0] < src[0] and ex != "none":
        o.cover(ex + " left")
    if tgt[-1] > src[-1] and ex != "none":
        o.cover(ex + " right")
    # element by element: no target point influences another
    i = rng.randrange(len(tgt))
    few = sorted({tgt[i]} | set(src[:2]) | {src[-1]})
    c3 = make(gen.as_dt64(src), gen.as_dt64(few), ex if tgt[i] < src[0] or tgt[i] > src[-1] else "none") if few[1] >= src[0] else None
    if c3 is not None:
        o.close(c3.convert_from(va)[few.index(tgt[i])], got[i], "result at a point depends on the other target points", rtol=1e-10, atol=conv_tol(KIND, src, v, tgt, ex))
    # opposite direction
    if tgt[0] <= src[1] and src[-1] >= tgt[0] and src[1] >= tgt[0]:
        ex2 = ex if ex != "none" else "constant"
        w = gen.values(rng, len(tgt))
        x = make(gen.as_dt64(src), gen.as_dt64(tgt), ex2).convert_to(np.array(w))
        o.close(x, ref.convert(KIND, tgt, w, src, ex2), "convert_to is not the linear interpolation with the axes exchanged", rtol=1e-11, atol=conv_tol(KIND, tgt, w, src, ex2))
    o.state(role, ex, len(src), len(tgt), str(a.dtype), str(b.dtype))


def round_trip(rng, o):
    src = gen.axis(rng, lo=3)
    tgt = gen.refine(rng, src)
    ex = rng.choice(["none", "constant", "linear"])
    if ex != "none" and rng.random() < 0.5:
        tgt = sorted(set(tgt) | {src[-1] + rng.randint(1, 10 ** 6), src[0] - rng.randint(1, 10 ** 6)})
    v = gen.values(rng, len(src))
    a, b = both(rng, o, src, tgt)
    c = make(a, b, ex)
    there = o.returns("convert_from", c.convert_from, np.array(v))
    back = o.returns("convert_to", c.convert_to, there)
    o.event("values", repr([src, tgt, v]))
    if rng.random() < 0.2:
        # the very same array with other contents
        there2 = there.copy()
        there2 *= 2.0
        c.convert_to(there2)
        there2[:] = there
        o.close(c.convert_to(there2), back, "converting an array after its contents changed", rtol=1e-13, atol=1e-300)
    o.close(back, v, "round trip over a finer axis does not return the values", rtol=1e-11, atol=1e-10 * max(abs(x) for x in v) + 1e-300)
    d = make(b, a, ex)
    o.close(d.convert_from(there), back, "convert_to differs from convert_from of the exchanged converter", rtol=1e-12, atol=1e-12 * max(abs(x) for x in v))
    # same instants in another resolution: same numbers
    e = make(gen.as_dt64(src, rng.choice(["s", "ms", "us"])), gen.as_dt64(tgt, rng.choice(["s", "ms", "us"])), ex)
    o.close(e.convert_from(np.array(v)), there, "result depends on the datetime64 resolution", rtol=1e-13, atol=1e-13 * max(abs(x) for x in v))
    # constant, and linear in the values
    k = rng.uniform(-5, 5)
    o.close(c.convert_from(np.full(len(src), k)), np.full(len(tgt), k), "constant series does not stay constant", rtol=1e-11)
    w = gen.values(rng, len(src))
    s = c.convert_from(np.array(v) * k + np.array(w))
    tol = conv_tol(KIND, src, [max(map(abs, v)) * abs(k) + max(map(abs, w))], tgt, ex)
    o.close(s, k * there + c.convert_from(np.array(w)), "conversion is not linear in the values", rtol=1e-10, atol=tol)
    o.cover("round trip")
    if len(tgt) > len(src) and len(set(v)) > 1:
        o.nontrivial()


def views(rng, o):
    """the ways to ask a ParameterSet for another axis, with the (only) interpolation and extrapolation given in any form"""
    src = gen.axis(rng, lo=4, hi=9)
    v = gen.values(rng, len(src))
    p = ParameterSet()
    p.timeseries("X", "K", gen.as_dt64(src), timeseries_type=rng.choice(["point", ParameterType.POINT_TIMESERIES])).values = np.array(v)
    tgt = gen.within(rng, src)
    ex = rng.choice(["none", "constant", "linear"])
    if ex != "none":
        tgt = sorted(set(tgt) | {src[-1] + rng.randint(1, 10 ** 6)})
    kw = {"interpolation": rng.choice(["linear", "LINEAR", "Linear", InterpolationType.LINEAR])}
    if ex != "none" or rng.random() < 0.5:
        kw["extrapolation"] = rng.choice([ex, ex.upper(), ExtrapolationType[ex.upper()]])
    o.event("view", repr([src, tgt, v, kw]))
    w = o.returns("view", p.timeseries, "X", "K", gen.as_dt64(tgt), timeseries_type="point", **kw)
    got = o.returns("values", lambda: [float(x) for x in w.values])
    o.close(got, ref.convert(KIND, src, v, tgt, ex), "values of a view on another axis", rtol=1e-9, atol=conv_tol(KIND, src, v, tgt, ex))
    o.cover("view")
    o.cover("interpolation given")


def one_point(rng, o):
    """a single time asked for: the same number as among other times"""
    src = gen.axis(rng, lo=3, hi=9)
    v = gen.values(rng, len(src))
    ex = rng.choice(["none", "constant", "linear"])
    t = rng.choice([src[0], src[-1], rng.choice(src), rng.randint(src[0], src[-1])])
    if ex != "none" and rng.random() < 0.4:
        t = src[-1] + rng.randint(1, 10 ** 7)
    exp = ref.convert(KIND, src, v, [t], ex)
    tol = conv_tol(KIND, src, v, [t], ex)
    o.event("one point", repr([src, t, v, ex]))
    a, b = both(rng, o, src, [t])
    c = o.returns("converter to one time point", make, a, b, ex)
    o.check(c.target_length == 1 and c.source_length == len(src), "reported lengths")
    o.close(o.returns("convert_from", c.convert_from, np.array(v)), exp, "value at a single time", rtol=1e-11, atol=tol)
    o.cover("one target point")
    if t not in src:
        o.nontrivial()
    o.raises(InsufficientDataError, "one value back onto the axis", c.convert_to, np.array([1.0]))
    p = ParameterSet()
    p.timeseries("X", "K", gen.as_dt64(src), timeseries_type="point").values = np.array(v)
    w = o.returns("view", p.timeseries, "X", "K", gen.as_dt64([t]), timeseries_type="point", extrapolation=ex)
    o.close(o.returns("values", lambda: [float(x) for x in w.values]), exp, "values of a view of one time point", rtol=1e-9, atol=tol)
    o.cover("view of one time point")


FAMILIES = [Family("one point", one_point, 300, 4000), Family("views", views, 400, 4000), Family("conversion", conversion, 3000, 40000), Family("round trip", round_trip, 1600, 20000)]
FAMILIES += [
    Family("large conversion", gen.large(conversion), 100, 2000),
    Family("large round trip", gen.large(round_trip), 53, 1000),
]
