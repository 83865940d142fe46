import math

import numpy as np

from openscm.core.units import DimensionalityError, UndefinedUnitError, UnitConverter

from mon import gen, ref
from mon.core import Family

RULE = (
    "a case is a set of three or more spellings of units of one physical dimension (random compounds of prefixed units with exponents, written with /, *, ^, ** or "
    "per, plus offset temperatures and concentrations) with random values and arrays; every pairwise conversion is compared with the definitions and with "
    "composition, inversion and identity; non-trivial: the units have at least two components or an offset, and differ"
)
COVER = [
    "concentrations apart",
    "compound", "offset", "prefix", "exponent", "array", "integer array", "scalar", "chain", "inverse", "identity", "inconvertible", "unknown", "kt is kilotonne",
    "year", "concentration", "offset in compound", "per", "2-d array", "zero", "not modified", "nan and inf",
]
ASSUMPTIONS = [
    "definitions as in SI and the library's documentation (year = 365.25 d, kt = kilotonne); written out independently in the monitor",
    "offset units are converted from and to millikelvin and larger (the slope is taken from two values, which loses digits for much smaller units)",
    "no unit is combined with another spelling of itself in one expression (Pint 0.17 drops one of them)",
]
TECHNIQUE = "conversion events checked online against unit definitions and the algebraic laws (composition, inverse, identity)"

YEAR = 365.25 * 86400
PREF = {"n": 1e-9, "u": 1e-6, "m": 1e-3, "c": 1e-2, "d": 1e-1, "h": 1e2, "k": 1e3, "M": 1e6, "G": 1e9, "T": 1e12, "P": 1e15, "E": 1e18, "Z": 1e21}


def prefixed(name, scale, prefixes):
    out = {name: scale}
    for p in prefixes:
        out[p + name] = scale * PREF[p]
    return out


DIMS = {
    "mass": {**prefixed("g", 1.0, "numckMGTPE"), "t": 1e6, "kt": 1e9, "Mt": 1e12, "Gt": 1e15, "tonne": 1e6, "pound": 453.59237, "lb": 453.59237, "gram": 1.0, "kilogram": 1e3,
             "metric_ton": 1e6, "megatonne": 1e12},
    "length": {**prefixed("m", 1.0, "numckM"), "inch": 0.0254, "foot": 0.3048, "mile": 1609.344, "meter": 1.0, "yard": 0.9144, "kilometer": 1e3,
               "survey_foot": 1200 / 3937, "survey_mile": 5280 * 1200 / 3937},
    "time": {**prefixed("s", 1.0, "num"), "min": 60.0, "h": 3600.0, "hour": 3600.0, "d": 86400.0, "day": 86400.0, "week": 604800.0, "a": YEAR, "yr": YEAR,
             "year": YEAR, "annum": YEAR, "month": YEAR / 12, "century": 100 * YEAR, "second": 1.0, "minute": 60.0,
             "gregorian_year": 365.2425 * 86400, "sidereal_year": 365.256363004 * 86400, "tropical_year": 365.242190402 * 86400, "common_year": 365 * 86400.0,
             "leap_year": 366 * 86400.0, "millennium": 1000 * YEAR},
    "energy": {**prefixed("J", 1.0, "mkMGTPEZ"), "cal": 4.184, "kcal": 4184.0, "kWh": 3.6e6, "Wh": 3600.0, "joule": 1.0, "MWh": 3.6e9, "TWh": 3.6e15,
               "international_calorie": 4.1868, "toe": 4.1868e10, "Mtoe": 4.1868e16},
    "power": {**prefixed("W", 1.0, "mkMGTP"), "watt": 1.0},
    "pressure": {**prefixed("Pa", 1.0, "hkM"), "bar": 1e5, "mbar": 100.0, "atm": 101325.0, "pascal": 1.0},
    "delta": {"K": 1.0, "mK": 1e-3, "kelvin": 1.0, "delta_degC": 1.0, "delta_degF": 5 / 9, "kK": 1e3},
    "frequency": {**prefixed("Hz", 1.0, "kMG")},
    "concentrations": {"ppm": 1e6, "ppb": 1e3, "ppt": 1.0},
    "carbon": {"C": 1.0, "carbon": 1.0, "CO2": 12 / 44},
    "amount": {**prefixed("mol", 1.0, "nmk")},
    "volume": {"l": 1e-3, "litre": 1e-3, "ml": 1e-6},
    "area": {"ha": 1e4, "hectare": 1e4},
}
ABS = {"K": (1.0, 0.0), "kelvin": (1.0, 0.0), "mK": (1e-3, 0.0), "degC": (1.0, 273.15), "degF": (5 / 9, 273.15 - 32 * 5 / 9), "degreeC": (1.0, 273.15),
       "degreeF": (5 / 9, 273.15 - 32 * 5 / 9), "celsius": (1.0, 273.15), "fahrenheit": (5 / 9, 273.15 - 32 * 5 / 9), "kK": (1e3, 0.0),
       "MK": (1e6, 0.0), "GK": (1e9, 0.0), "megakelvin": (1e6, 0.0), "degR": (5 / 9, 0.0)}
# SI exponents (mass, length, time, temperature, substance) to tell inconvertible units
BASE = {
    "mass": (1, 0, 0, 0, 0, 0, 0), "length": (0, 1, 0, 0, 0, 0, 0), "time": (0, 0, 1, 0, 0, 0, 0), "energy": (1, 2, -2, 0, 0, 0, 0), "power": (1, 2, -3, 0, 0, 0, 0),
    "pressure": (1, -1, -2, 0, 0, 0, 0), "delta": (0, 0, 0, 1, 0, 0, 0), "frequency": (0, 0, -1, 0, 0, 0, 0), "concentrations": (0, 0, 0, 0, 1, 0, 0),
    "carbon": (0, 0, 0, 0, 0, 1, 0), "amount": (0, 0, 0, 0, 0, 0, 1), "volume": (0, 3, 0, 0, 0, 0, 0), "area": (0, 2, 0, 0, 0, 0, 0),
}


def shape(rng):
    """[(dimension, exponent)]"""
    n = rng.choice([1, 1, 2, 2, 3, 4])
    kinds = rng.sample(sorted(DIMS), n)
    return [(k, rng.choice([1, 1, 1, -1, -1, 2, -2, 3])) for k in kinds]


def spell(rng, o, shape):
    """one unit of that shape -> (string, scale)"""
    parts = list(shape)
    rng.shuffle(parts)
    parts.sort(key=lambda p: p[1] < 0)  # start with a positive one where possible
    text, scale = "", 1.0
    for i, (k, p) in enumerate(parts):
        u = rng.choice(sorted(DIMS[k]))
        scale *= DIMS[k][u] ** p
        if u == "kt":
            o.cover("kt is kilotonne")
        if k == "time" and DIMS[k][u] == YEAR:
            o.cover("year")
        if k == "concentrations":
            o.cover("concentration")
        if u[0] in PREF and len(u) > 1:
            o.cover("prefix")
        if abs(p) > 1:
            o.cover("exponent")
        style = rng.randrange(4)
        if i and p < 0 and style:
            q = "" if p == -1 else rng.choice(["^", "**", " ** "]) + str(-p)
            sep = rng.choice(["/", " / ", " per "])
            if "per" in sep:
                o.cover("per")
            text += sep + u + q
        else:
            q = "" if p == 1 else rng.choice(["^", "**"]) + str(p)
            text += (rng.choice(["*", " * ", " "]) if i else "") + u + q
    if len(parts) > 1:
        o.cover("compound")
    return text, scale


def some_values(rng, o):
    k = rng.randrange(6)
    if k == 0:
        o.cover("scalar")
        return gen.number(rng)
    if k == 1:
        o.cover("integer array")
        return np.array([rng.randint(-1000, 1000) for _ in range(5)])
    if k == 2:
        o.cover("2-d array")
        return np.array([gen.values(rng, 3), gen.values(rng, 3)])
    if k == 3:
        o.cover("zero")
        return np.zeros(3)
    if k == 4:
        o.cover("nan and inf")
        return np.array([1.0, float("nan"), float("inf"), -float("inf")])
    o.cover("array")
    return np.array(gen.values(rng, 6))


def expect(o, got, v, f, msg, atol=0.0, **info):
    """got == f(v) element by element"""
    v = np.asarray(v, dtype=float)
    exp = f(v)
    o.check(np.shape(got) == v.shape, msg + ": shape", observed=np.shape(got), expected=v.shape, **info)
    finite = np.isfinite(v)
    o.close(np.where(finite, got, 0.0), np.where(finite, exp, 0.0), msg, rtol=1e-9, atol=atol, **info)
    if not finite.all():
        o.check(np.array_equal(np.isnan(got), np.isnan(exp)), msg + ": NaN", observed=got, expected=exp, **info)
        o.check(np.array_equal(np.isinf(got), np.isinf(exp)), msg + ": infinity", observed=got, expected=exp, **info)


def conversion(o, a, b, v, slope, offset, msg):
    """b = slope * a + offset, through the converter and back"""
    uc = o.returns("UnitConverter({!r}, {!r})".format(a, b), UnitConverter, a, b)
    o.eq((uc.source, uc.target), (a, b), "source and target of the converter")
    before = np.array(v, copy=True)
    atol = 1e-9 * abs(offset) + 1e-11 * slope
    got = o.returns("convert_from", uc.convert_from, v)
    expect(o, got, v, lambda x: slope * x + offset, msg, atol, source=a, target=b)
    back = o.returns("convert_to", uc.convert_to, v)
    expect(o, back, v, lambda x: (x - offset) / slope, msg + " (backwards)", 1e-9 * abs(offset / slope) + 1e-11 / slope, source=a, target=b)
    around = uc.convert_to(got)
    o.cover("inverse")
    expect(o, around, v, lambda x: x, "convert_to does not invert convert_from", (1e-9 * abs(offset) + 1e-11 * slope) / slope + 1e-11, source=a, target=b)
    o.check(np.array_equal(before, v, equal_nan=True), "conversion changed its argument", before=before, after=v)
    o.cover("not modified")
    return uc, got


def compounds(rng, o):
    s = shape(rng)
    units = [spell(rng, o, s) for _ in range(rng.randint(3, 5))]
    if len(s) > 1:
        o.nontrivial()
    o.state(tuple(sorted(s)))
    for _ in range(3):
        (a, sa), (b, sb), (c, sc) = rng.sample(units, 3)
        v = some_values(rng, o)
        ab, x = conversion(o, a, b, v, sa / sb, 0.0, "conversion")
        bc, _ = conversion(o, b, c, v, sb / sc, 0.0, "conversion")
        ac = UnitConverter(a, c)
        o.cover("chain")
        expect(o, bc.convert_from(x), v, lambda z: ac.convert_from(z), "a->b->c differs from a->c", 1e-11 * sa / sc, units=(a, b, c))
    a, _ = rng.choice(units)
    v = some_values(rng, o)
    expect(o, o.returns("identity", UnitConverter(a, a).convert_from, v), v, lambda x: x, "conversion to itself is not the identity", 1e-12, unit=a)
    o.cover("identity")


def temperatures(rng, o):
    names = rng.sample(sorted(ABS), 3)
    o.nontrivial()
    o.cover("offset")
    for a, b in [(names[0], names[1]), (names[1], names[2]), (names[0], names[2]), (names[0], names[0])]:
        (sa, oa), (sb, ob) = ABS[a], ABS[b]
        conversion(o, a, b, some_values(rng, o), sa / sb, (oa - ob) / sb, "temperature conversion")
    o.state(tuple(names))
    # differences: an offset unit in a compound is a difference
    scale = {"degC": 1.0, "degF": 5 / 9, "K": 1.0, "delta_degC": 1.0, "delta_degF": 5 / 9, "kelvin": 1.0, "mK": 1e-3}
    a, b = rng.sample(sorted(scale), 2)
    t, u = rng.sample(["yr", "s", "d", "h", "month"], 2)
    T = DIMS["time"]
    form = rng.choice(["{}/{}", "{} / {}", "{} per {}"])
    conversion(o, form.format(a, t), form.format(b, u), some_values(rng, o), scale[a] / T[t] / (scale[b] / T[u]), 0.0, "rate of temperature change")
    o.cover("offset in compound")


def si(s):
    out = [0] * 7
    for k, p in s:
        for i, e in enumerate(BASE[k]):
            out[i] += p * e
    return out


UNKNOWN = ["unknown_unit", "qwerty", "xyz/m", "kg * foobar", "W/qwerty^2", "GtXYZ", "CO2eqv", "t CH44", "USD", "hobbits"]


def refused(rng, o):
    for _ in range(4):
        s1, s2 = shape(rng), shape(rng)
        a, _ = spell(rng, o, s1)
        b, _ = spell(rng, o, s2)
        if si(s1) != si(s2):
            o.raises(DimensionalityError, "UnitConverter({!r}, {!r})".format(a, b), UnitConverter, a, b)
            o.cover("inconvertible")
            if len(s1) + len(s2) > 2:
                o.nontrivial()
        # units which sound like volumes or nothing at all, but are concentrations, and the other way round
        c, d = rng.choice(["ppm", "ppb", "ppt"]), rng.choice(["l", "m^3", "pint", "dimensionless", "K", "", "kg/kg", "GtC", "ppm/yr", "1/ppm"])
        o.raises(DimensionalityError, "UnitConverter({!r}, {!r})".format(c, d), UnitConverter, *rng.choice([(c, d), (d, c)]))
        o.cover("concentrations apart")
        u = rng.choice(UNKNOWN)
        o.cover("unknown")
        if rng.random() < 0.5:
            o.raises(UndefinedUnitError, "UnitConverter({!r}, {!r})".format(u, a), UnitConverter, u, a)
        else:
            o.raises(UndefinedUnitError, "UnitConverter({!r}, {!r})".format(a, u), UnitConverter, a, u)
        # and nothing is left behind
        (c, sc), (d, sd) = spell(rng, o, s1), spell(rng, o, s1)
        conversion(o, c, d, some_values(rng, o), sc / sd, 0.0, "conversion after a refused one")


def equivalent(rng, o):
    """derived units are their definitions"""
    pairs = [
        ("W", "J/s", 1.0), ("J", "kg*m^2/s^2", 1.0), ("Pa", "newton/m^2", 1.0), ("Hz", "1/s", 1.0), ("kWh", "W*h", 1e3), ("EJ/yr", "W", 1e18 / YEAR),
        ("W/m^2", "J/s/m^2", 1.0), ("ZJ", "W*yr", 1e21 / YEAR), ("l", "m^3", 1e-3), ("ha", "km^2", 1e-2), ("kt", "t", 1e3), ("kt", "Gg", 1.0), ("Mt", "Tg", 1.0),
        ("Gt", "Pg", 1.0), ("GtC/yr", "PgC/yr", 1.0), ("ktC/a", "GgC/a", 1.0), ("ppm", "ppt", 1e6), ("ppb", "ppt", 1e3), ("Mt CO2/yr", "GtC/yr", 1e-3 * 12 / 44),
        ("yr", "d", 365.25), ("a", "h", 8766.0), ("annum", "s", YEAR), ("century", "yr", 100.0), ("mW/m^2", "W/km^2", 1e3), ("bar", "hPa", 1e3), ("atm", "Pa", 101325.0),
        ("ppm/yr", "ppb/d", 1000 / 365.25), ("kt CH4/yr", "Gg CH4/yr", 1.0), ("kcal", "J", 4184.0), ("newton", "kg*m/s^2", 1.0), ("kt/m^2", "g/m^2", 1e9),
        ("MW", "mW", 1e9), ("Mg", "mg", 1e9), ("mW/m^2", "MW/m^2", 1e-9), ("Pg", "pg", 1e27), ("GJ", "J", 1e9), ("h/d", "s/min", 2.5), ("survey_foot", "foot", 1 / 0.999998),
        ("tropical_year", "yr", 365.242190402 / 365.25), ("sidereal_year", "a", 365.256363004 / 365.25), ("W/survey_foot^2", "W/foot^2", 0.999998 ** 2), ("cm", "Tm", 1e-14),
        ("nm", "Gm", 1e-18), ("ug/s", "Gt/yr", 1e-21 * YEAR),
    ]
    for a, b, f in rng.sample(pairs, 6):
        conversion(o, a, b, some_values(rng, o), f, 0.0, "derived unit")
        o.state(a, b)
    o.nontrivial()


FAMILIES = [
    Family("compounds", compounds, 660, 3500),
    Family("temperatures", temperatures, 480, 2500),
    Family("refused", refused, 300, 1500),
    Family("equivalent", equivalent, 180, 600),
]
