import numpy as np

from openscm.core.parameters import ParameterType

from mon import gen, ref
from mon.core import Family
from mon.props.t01 import both, make
from mon.tsmodel import conv_tol

KIND = "average"
TYPE = ParameterType.AVERAGE_TIMESERIES
RULE = (
    "a case is a random source axis of periods (equal, irregular, seconds to millennia), target axis and values; the integral over "
    "spans of source periods is balanced (in = out), and every target value compared with the exact rational mean of the piecewise "
    "linear function; non-trivial: some target period does not coincide with a source period and the values are not all equal"
)
COVER = [
    "finer target", "coarser target", "irregular target", "target period across source edges", "many source periods in one target period",
    "constant left", "constant right", "linear left", "linear right", "identity", "several target periods in half a source period", "three periods",
    "integral balanced over part", "integral balanced over all",
]
ASSUMPTIONS = ["interpolation type is linear (the only one the library implements)", "tolerance 1e-9 of the largest value"]


def tolerance(src, v, tgt, ex):
    return conv_tol(KIND, src, v, tgt, ex)


def target(rng, src, o):
    r = rng.random()
    if r < 0.1:
        return list(src), "same"
    if r < 0.35:
        return gen.refine(rng, src, 4), "refine"
    if r < 0.5:
        keep = sorted({src[0], src[-1]} | set(rng.sample(src, max(2, len(src) // 2))))
        if len(keep) > 3:
            o.cover("coarser target")
            return keep, "coarse"
    if r < 0.75:
        return gen.within(rng, src, rng.randint(4, 18)), "within"
    return gen.beyond(rng, src), "beyond"


def balance(o, src, v, tgt, got, role):
    """in = out over every span between edges common to both axes"""
    common = sorted(set(src) & set(tgt))
    if len(common) < 2:
        return
    m = max(map(abs, v))
    for a, b in zip(common, common[1:]):
        i, j = src.index(a), src.index(b)
        k, l = tgt.index(a), tgt.index(b)
        want = sum(v[n] * (src[n + 1] - src[n]) for n in range(i, j))
        have = sum(got[n] * (tgt[n + 1] - tgt[n]) for n in range(k, l))
        o.checks += 1
        if not abs(want - have) <= 2e-9 * m * (b - a) + 1e-300:
            o.fail("integral over source periods is not conserved", source_periods=(i, j), target_periods=(k, l), before=want, after=have, src=src, tgt=tgt, values=v, got=list(got))
        o.cover("integral balanced over part")
    if common[0] == src[0] and common[-1] == src[-1]:
        o.cover("integral balanced over all")


def conversion(rng, o):
    src = gen.axis(rng, lo=4, hi=12)
    tgt, role = target(rng, src, o)
    if len(tgt) < 2:
        tgt, role = list(src), "same"
    ex = rng.choice(["constant", "linear"]) if role == "beyond" else rng.choice(["none", "constant", "linear"])
    v = gen.values(rng, len(src) - 1)
    a, b = both(rng, o, src, tgt)
    va = np.array(v)
    c = o.returns("TimeseriesConverter(average, {} -> {} edges, {}, {}, {}->{})".format(len(src), len(tgt), role, ex, a.dtype, b.dtype), make, a, b, ex, TYPE)
    got = o.returns("convert_from", c.convert_from, va)
    o.event("values", repr([src, tgt, v]))
    o.check((va == np.array(v)).all(), "a conversion changed its arguments")
    o.check(c.source_length == len(src) - 1 and c.target_length == len(tgt) - 1, "reported lengths")
    tol = tolerance(src, v, tgt, ex)
    exp = ref.convert(KIND, src, v, tgt, ex)
    o.close(got, exp, "average conversion is not the mean of the piecewise linear function", rtol=1e-10, atol=tol, src=src, tgt=tgt, values=v, ex=ex)
    if role == "same":
        o.close(got, v, "conversion onto the source axis is not the identity", rtol=1e-10, atol=tol)
        o.cover("identity")
    balance(o, src, v, tgt, got, role)
    if len(src) == 4:
        o.cover("three periods")
    for p, q in zip(tgt, tgt[1:]):
        n = sum(p < t < q for t in src)
        if n == 1:
            o.cover("target period across source edges")
        if n > 1:
            o.cover("many source periods in one target period")
    for p, q in zip(src, src[1:]):
        if sum(p <= t <= (p + q) / 2 for t in tgt) > 2:
            o.cover("several target periods in half a source period")
    if role == "refine":
        o.cover("finer target")
    if role == "within":
        o.cover("irregular target")
    if role == "beyond":
        if tgt[0] < src[0]:
            o.cover(ex + " left")
        if tgt[-1] > src[-1]:
            o.cover(ex + " right")
    if role != "same" and len(set(v)) > 1:
        o.nontrivial()
    o.state(role, ex, len(src), len(tgt))


def algebra(rng, o):
    """constants, linearity, resolution, exchange of axes, nested refinement"""
    src = gen.axis(rng, lo=4, hi=10)
    tgt = gen.refine(rng, src)
    v, w = gen.values(rng, len(src) - 1), gen.values(rng, len(src) - 1)
    a, b = both(rng, o, src, tgt)
    ex = rng.choice(["none", "constant", "linear"])
    c = make(a, b, ex, TYPE)
    there = o.returns("convert_from", c.convert_from, np.array(v))
    o.event("values", repr([src, tgt, v]))
    m = max(max(map(abs, v)), 1e-300)
    balance(o, src, v, tgt, there, "refine")
    back = o.returns("convert_to", c.convert_to, there)
    o.close(back, v, "round trip over a finer axis does not return the averages", rtol=0, atol=1e-8 * m)
    d = make(b, a, ex, TYPE)
    o.close(d.convert_from(there), back, "convert_to differs from convert_from of the exchanged converter", rtol=0, atol=1e-10 * m)
    k = rng.uniform(-5, 5)
    o.close(c.convert_from(np.full(len(src) - 1, k)), np.full(len(tgt) - 1, k), "constant series does not stay constant", rtol=1e-9)
    mm = m * abs(k) + max(map(abs, w))
    o.close(c.convert_from(np.array(v) * k + np.array(w)), k * there + c.convert_from(np.array(w)), "conversion is not linear in the values", rtol=1e-9, atol=1e-9 * mm)
    e = make(gen.as_dt64(src, rng.choice(["s", "ms", "us"])), gen.as_dt64(tgt, rng.choice(["s", "ms", "us"])), ex, TYPE)
    o.close(e.convert_from(np.array(v)), there, "result depends on the datetime64 resolution", rtol=1e-11, atol=1e-11 * m)
    # splitting one target period conserves its content
    i = rng.randrange(len(tgt) - 1)
    if tgt[i + 1] - tgt[i] > 1:
        cut = rng.randrange(tgt[i] + 1, tgt[i + 1])
        t2 = tgt[: i + 1] + [cut] + tgt[i + 1 :]
        x = make(a, gen.as_dt64(t2) if b.dtype.kind == "M" else np.array(t2, dtype=float), ex, TYPE).convert_from(np.array(v))
        have = x[i] * (cut - tgt[i]) + x[i + 1] * (tgt[i + 1] - cut)
        o.close(have / (tgt[i + 1] - tgt[i]), there[i], "splitting a target period changes its content", rtol=1e-9, atol=1e-9 * m)
    if len(tgt) > len(src) and len(set(v)) > 1:
        o.nontrivial()


FAMILIES = [Family("conversion", conversion, 2400, 30000), Family("algebra", algebra, 1200, 15000)]
FAMILIES += [
    Family("large conversion", gen.large(conversion), 80, 1500),
    Family("large algebra", gen.large(algebra), 40, 750),
]
