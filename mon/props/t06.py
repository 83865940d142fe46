from fractions import Fraction

import numpy as np

from openscm.core.parameters import ParameterType
from openscm.scmdataframe import ScmDataFrame
from openscm.scmdataframe.parameter_type import guess_parameter_type

from mon import gen, ref, scm
from mon.core import Family

RULE = (
    "a case is a set of (variable name, unit) pairs: units are random products of known units whose exponent of time is added up independently, unknown or "
    "missing units come with names written to match or miss the documented patterns; the guess is observed directly and through ScmDataFrame.interpolate; "
    "non-trivial: at least one unit in which time is hidden in a derived unit (W, N, Hz ...), cancels out or is combined with others, or a pattern-decided guess"
)
COVER = [
    "explicit time", "hidden time", "cancelling time", "no time", "unknown unit", "missing unit", "name average", "name point", "name unrecognised",
    "name contradicts unit", "power of time", "context gas unit", "via interpolate", "via to_parameterset", "offset unit per time", "dimensionless", "not a unit at all", "name built from the patterns", "several names with one unknown unit",
]
ASSUMPTIONS = ["the variable-name patterns are those listed in parameter_type.py at the pinned commit, checked in their documented order"]

# exponent of time of each unit
UNITS = {
    "m": 0, "km": 0, "g": 0, "kg": 0, "t": 0, "kt": 0, "K": 0, "mol": 0, "C": 0, "GtC": 0, "CO2": 0, "MtCO2": 0, "CH4": 0, "ppm": 0, "ppb": 0, "inch": 0,
    "N2O": 0, "tSO2": 0, "rad": 0, "HFC4310mee": 0, "Mt NOx": 0, "ha": 0, "litre": 0,
    "s": 1, "ms": 1, "a": 1, "yr": 1, "year": 1, "h": 1, "hour": 1, "d": 1, "day": 1, "min": 1, "month": 1, "annum": 1, "week": 1, "century": 1,
    "Hz": -1, "kHz": -1, "W": -3, "GW": -3, "J": -2, "EJ": -2, "newton": -2, "Pa": -2, "hPa": -2, "bar": -2, "V": -3, "cal": -2, "knot": -1, "mph": -1, "watt": -3,
    "sievert": -2, "poise": -1, "becquerel": -1, "horsepower": -3, "toe": -2, "dyne": -2, "Wh": -2,
}
UNKNOWN = ["unknown_unit", "USD", "foo/bar", "Mt CO2eq", "people", "index", "US$2010", "vehicles/yr", "xyzW", "W/qwerty", "million/yr", "Mt XYZ/yr"]
NOT_UNITS = ["%", "$", "W m-2", "W/", "(", "K/", "EJ yr-1", "index (2005=1)x"]
AVERAGE_NAMES = [
    "Emissions", "Emissions|CO2", "Emissions|CO2|Fossil", "Emissions Temperature", "CO2I_EMIS", "World_EMIS", "CH4_GWPEMIS", "Net Land Flux", "Carbon Flux|Ocean",
    "TOTAL_RF", "CO2_SRF", "CO2_ERF_EFFRF", "CO2_EFFRF", "CH4_PEFFRF", "Radiative Forcing", "Radiative Forcing|CO2", "HEATUPTAKE_EBALANCE_TOTAL",
    "HEATUPTAKE_EBALANCE_TOTAL|x", "a Flux to Surface Temperature", "CO2_EMIS_CONC", "Surface Temperature Flux", "Atmospheric Concentrations|Flux",
]
POINT_NAMES = [
    "Atmospheric Concentrations", "Atmospheric Concentrations|CO2", "CO2_CONC", "Surface Temperature", "Surface Temperature|Land", "SURFACE_TEMP", "xTEMPx",
]
OTHER_NAMES = [
    "", "x", "emissions|CO2", "Cumulative Emissions|CO2", " Emissions", "co2_emis", "EMIS", "flux", "RF", "_XRF", "radiative forcing", "Effective Radiative Forcing",
    "Heat Uptake", "XHEATUPTAKE_EBALANCE_TOTAL", "Primary Energy", "GWPEMIS", "PEFFRF", "temp", "Ocean Heat Content", "Diagnostics|MAGICC6|C2F6",
]
AVG, PT = ParameterType.AVERAGE_TIMESERIES, ParameterType.POINT_TIMESERIES


def unit(rng, o):
    """-> (unit string, involves time)"""
    k = rng.randrange(8)
    if k == 0:
        u = rng.choice(sorted(UNITS))
        e = UNITS[u]
        if e == 0:
            o.cover("no time")
        elif abs(e) == 1 and UNITS[u] == 1:
            o.cover("explicit time")
        else:
            o.cover("hidden time")
            o.nontrivial()
        return u, e != 0
    if k == 1:
        o.cover("dimensionless")
        return rng.choice([("dimensionless", False), ("1", False), ("m/m", False), ("kg/g", False)])
    if k == 2:
        o.cover("offset unit per time")
        return rng.choice([("degC/yr", True), ("degC/month", True), ("K/yr", True), ("degC", False), ("degF", False), ("delta_degC", False), ("degC/km", False)])
    n = rng.randint(2, 4)
    parts, total, hidden, tpow = [], Fraction(0), False, False
    out = ""
    for i in range(n):
        u = rng.choice(sorted(UNITS)) if rng.random() < 0.5 else rng.choice(["s", "yr", "W", "J", "a", "kg", "m", "GtC", "d", "Hz"])
        p = rng.choice([1, 1, 1, 2, 3, -1, -2])
        if " " in u:
            u = u.replace(" ", " * ")
            p = 1
        div = i > 0 and rng.random() < 0.5
        e = UNITS[u.replace(" * ", " ")]
        total += (-p if div else p) * e
        hidden |= e not in (0, 1)
        tpow |= e == 1 and abs(p) > 1
        if " * " in u and div:
            u = "(" + u + ")"
        term = u if p == 1 else u + rng.choice(["^", "**", " ** "]) + (str(p) if p > 0 else "-" + str(-p))
        out += term if i == 0 else (rng.choice(["/", " / "]) if div else rng.choice([" * ", "*"])) + term
    if tpow and total:
        o.cover("power of time")
    if total == 0 and any(UNITS.get(x, 0) for x in UNITS if x in out):
        pass
    return out, total != 0


def cancelling(rng, o):
    o.cover("cancelling time")
    o.nontrivial()
    return rng.choice(
        [("yr/yr", False), ("W*s^3", False), ("W/J*s", False), ("GtC/yr*d", False), ("J*s^2/kg", False), ("Hz*s", False), ("W * yr^3", False),
         ("J/W/a", False), ("newton*h**2", False), ("W*yr/J", False), ("W*yr", True), ("J*yr", True), ("newton*s", True), ("kt C / yr * yr", False), ("Hz/Hz", False)]
    )


def by_name(n):
    """what the documented patterns say about a name: those for averages come first, anything else is a point timeseries"""
    starts = n.startswith(("Emissions", "Radiative Forcing", "HEATUPTAKE_EBALANCE_TOTAL"))
    has = any(x in n for x in ("_EMIS", "_GWPEMIS", "Flux", "_RF", "_PEFFRF", "_EFFRF", "_SRF"))
    return AVG if starts or has else PT


WORDS = ["Emissions", "_EMIS", "_GWPEMIS", "Flux", "_RF", "_PEFFRF", "_EFFRF", "_SRF", "Radiative Forcing", "HEATUPTAKE_EBALANCE_TOTAL", "Atmospheric Concentrations", "_CONC",
         "Surface Temperature", "TEMP", "EMIS", "RF", "_XRF", "_PEFF", "_emis", "flux", "_GWP"]
AROUND = ["", "", "CO2", "CH4|x", " ", "|", "|anthropogenic", "_TOTAL", "x", "World", " (harmonised)", "2", "_"]


def name(rng, o):
    k = rng.randrange(4)
    if k == 3:
        n = "".join(rng.choice(AROUND) + rng.choice(WORDS) for _ in range(rng.choice([1, 1, 2]))) + rng.choice(AROUND)
        o.cover("name built from the patterns")
        return n, by_name(n)
    if k == 0:
        o.cover("name average")
        return rng.choice(AVERAGE_NAMES), AVG
    if k == 1:
        o.cover("name point")
        return rng.choice(POINT_NAMES), PT
    o.cover("name unrecognised")
    return rng.choice(OTHER_NAMES), PT


def pair(rng, o):
    """-> (name, unit, expected type)"""
    n, by_name = name(rng, o)
    k = rng.randrange(7)
    if k == 0:
        o.cover("unknown unit")
        o.nontrivial()
        return n, rng.choice(UNKNOWN), by_name
    if k == 1:
        o.cover("missing unit")
        o.nontrivial()
        return n, rng.choice([None, ""]), by_name
    if k == 2:
        o.cover("not a unit at all")
        return n, rng.choice(NOT_UNITS), by_name
    u, has_time = cancelling(rng, o) if k == 3 else unit(rng, o)
    if any(g in u for g in ("CO2", "CH4", "N2O", "HFC", "SO2", "NOx")):
        o.cover("context gas unit")
    exp = AVG if has_time else PT
    if exp != by_name:
        o.cover("name contradicts unit")
    return n, u, exp


def same_unknown(rng, o):
    """names decide for a unit which is not known, whatever was guessed before"""
    u = rng.choice(UNKNOWN + NOT_UNITS + [None, ""])
    for _ in range(8):
        n, exp = name(rng, o)
        got = o.returns("guess_parameter_type({!r}, {!r})".format(n, u), guess_parameter_type, n, u)
        o.check(got is exp, "wrong parameter type guessed", variable=n, unit=u, observed=got, expected=exp)
        o.state(n, u)
    o.cover("several names with one unknown unit")
    o.nontrivial()


def direct(rng, o):
    for _ in range(12):
        n, u, exp = pair(rng, o)
        got = o.returns("guess_parameter_type({!r}, {!r})".format(n, u), guess_parameter_type, n, u)
        o.check(got is exp, "wrong parameter type guessed", variable=n, unit=u, observed=got, expected=exp)
        o.state(n, u)


def frames(rng, o):
    """the guess as seen in frames"""
    pairs, seen = [], set()
    for _ in range(rng.randint(2, 6)):
        n, u, exp = pair(rng, o)
        if (n, u) not in seen and n:
            seen.add((n, u))
            pairs.append((n, u, exp))
    if not pairs:
        return
    axis = gen.axis(rng, n=5, style="annual")
    vals = [gen.values(rng, 5) for _ in pairs]
    rows = [{"model": "m", "scenario": "s", "region": "World", "variable": n, "unit": u} for n, u, _ in pairs]
    df = scm.Model(rows, axis, vals).build()
    o.event("frame", "{}", [(n, u) for n, u, _ in pairs])
    out = o.returns("interpolate", df.interpolate, np.array(axis, dtype="datetime64[s]"))
    got = list(out.meta["parameter_type"])
    o.cover("via interpolate")
    for g, (n, u, exp) in zip(got, pairs):
        o.eq(g, "average" if exp is AVG else "point", "wrong parameter type in metadata after interpolate", variable=n, unit=u)
    # a single one through a ParameterSet: only readable as the guessed type
    n, u, exp = rng.choice([p for p in pairs if p[1]] or [(None, None, None)])
    if not n or "|" in (n[0], n[-1]) or "||" in n or u in UNKNOWN or u in NOT_UNITS:
        return
    one = scm.Model([{"model": "m", "scenario": "s", "region": "World", "variable": n, "unit": u}], axis, [vals[0]]).build()
    ps = o.returns("to_parameterset", one.to_parameterset)
    info = ps.timeseries(n, u, one.time_points if exp is PT else np.append(one.time_points, one.time_points[-1] + (one.time_points[-1] - one.time_points[-2])), timeseries_type=exp)
    o.close(np.array(o.returns("values as {}".format(exp), lambda: info.values)), vals[0], "values read with the guessed type", rtol=1e-9, atol=1e-9)
    o.cover("via to_parameterset")


FAMILIES = [Family("one unknown unit", same_unknown, 300, 2000), Family("direct", direct, 800, 6000), Family("frames", frames, 320, 2400)]
