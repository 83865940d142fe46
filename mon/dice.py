"""
The climate component of DICE-2013 written from its equations, and drivers of the adapter.
"""
import math

import numpy as np

from openscm import OpenSCM
from openscm.core.parameterset import ParameterSet

from . import gen, ref
from .ref import U
from .tsmodel import conv_tol

YEAR = 365 * 86400

# documented defaults: name -> (value, unit)
DEFAULTS = {
    "mat0": (830.4, "GtC"), "mateq": (588, "GtC"), "mat_lower": (10, "GtC"), "ml0": (10010, "GtC"), "mleq": (10000, "GtC"), "ml_lower": (1000, "GtC"), "mu0": (1527, "GtC"),
    "mueq": (1350, "GtC"), "mu_lower": (100, "GtC"), "tatm0": (0.8, "delta_degC"), "tatm_upper": (40, "delta_degC"), "tocean0": (0.0068, "delta_degC"),
    "tocean_lower": (-1, "delta_degC"), "tocean_upper": (20, "delta_degC"), "b12": (0.0181, ""), "b23": (0.00071, ""), "c1": (0.0222, "delta_degC*m^2/W"),
    "c3": (0.09175, "W/m^2/delta_degC"), "c4": (0.00487, ""), "fex0": (0.25, "W/m^2"), "fex1": (0.7, "W/m^2"), "fco22x": (3.8, "W/m^2"), "t2xco2": (2.9, "delta_degC"),
}
STANDARD = {"fco22x": "Radiative Forcing Sensitivity", "t2xco2": "Equilibrium Climate Sensitivity"}
SATURATION = gen.year_start(2100)
UNITS = {
    "GtC": [U("GtC", 1.0), U("MtC", 1e-3), U("tCO2", 1e-9 * ref.CO2), U("PgC", 1.0), U("kg C", 1e-12), U("GtCO2", ref.CO2)],
    "delta_degC": [U("delta_degC", 1.0), U("K", 1.0), U("mK", 1e-3), U("delta_degF", 5 / 9)],
    "": [U("", 1.0), U("dimensionless", 1.0)],
    "delta_degC*m^2/W": [U("delta_degC*m^2/W", 1.0), U("K*m^2/W", 1.0), U("delta_degC*m^2/mW", 1e3), U("K/(W/m^2)", 1.0)],
    "W/m^2/delta_degC": [U("W/m^2/delta_degC", 1.0), U("W/m^2/K", 1.0), U("mW/m^2/K", 1e-3)],
    "W/m^2": [U("W/m^2", 1.0), U("mW/m^2", 1e-3), U("kW/m**2", 1e3), U("W/km^2", 1e-6)],
}
EMISSIONS = ref.FAMILIES["emissions"]
GTC = next(u for u in EMISSIONS if u.name == "GtC/a")
GTCO2 = next(u for u in EMISSIONS if u.name == "GtCO2/a")
OUTPUTS = {  # output -> (name, unit, type)
    "mat": (("Pool", "CO2", "Atmosphere"), "GtC", "point"),
    "ml": (("Pool", "CO2", "Ocean", "lower"), "GtC", "point"),
    "mu": (("Pool", "CO2", "Ocean", "shallow"), "GtC", "point"),
    "tatm": (("Surface Temperature", "Increase"), "delta_degC", "point"),
    "tocean": (("Ocean Temperature", "Increase"), "delta_degC", "point"),
    "forc": (("Radiative Forcing", "CO2"), "W/m^2", "average"),
}


class Config:
    """one setting of the model; everything in base units, times in seconds"""

    def __init__(self, start, stop, period, emissions, axis, params=None, rounding=True, saturation=SATURATION, given=()):
        self.start, self.stop, self.period, self.axis, self.emissions = start, stop, period, list(axis), list(emissions)  # emissions in GtC/a
        self.params = {k: float(v[0]) for k, v in DEFAULTS.items()}
        self.given = dict(params or {})
        self.params.update(self.given)
        self.rounding, self.saturation = rounding, saturation
        self.also = set(given)  # generic settings which are supplied explicitly

    def copy(self):
        c = Config(self.start, self.stop, self.period, self.emissions, self.axis, self.given, self.rounding, self.saturation, self.also)
        return c

    @property
    def n(self):
        return (self.stop - self.start) // self.period + 1

    def grid(self, extra=0):
        return [self.start + i * self.period for i in range(self.n + extra)]


def simulate(c, n=None):
    """the difference equations -> {output: values}, set of limits which were active"""
    p, n = c.params, n or c.n
    e = ref.convert("average", c.axis, c.emissions, c.grid(1), "none")
    b12, b23 = p["b12"], p["b23"]
    b11 = 1 - b12
    b21 = b12 * p["mateq"] / p["mueq"]
    b22 = 1 - b21 - b23
    b32 = b23 * p["mueq"] / p["mleq"]
    b33 = 1 - b32
    mat, ml, mu, ta, to = [p["mat0"]], [p["ml0"]], [p["mu0"]], [p["tatm0"]], [p["tocean0"]]
    forc = [p["fco22x"] * math.log(p["mat0"] / p["mateq"]) / math.log(2) + p["fex0"]]
    active = set()
    for i in range(1, n):
        carbon = e[i - 1] * (c.period / YEAR)
        if c.rounding:
            carbon *= 44.0 / 12.0 / 3.666
        x = [mat[-1] * b11 + mu[-1] * b21 + carbon, ml[-1] * b33 + mu[-1] * b23, mat[-1] * b12 + mu[-1] * b22 + ml[-1] * b32]
        for j, (name, series) in enumerate((("mat", mat), ("ml", ml), ("mu", mu))):
            low = p[name + "_lower"]
            if x[j] <= low:
                active.add(name + "_lower")
            x[j] = max(low, x[j])
        o = to[-1] + p["c4"] * (ta[-1] - to[-1])
        if o > p["tocean_upper"]:
            active.add("tocean_upper")
        o = min(p["tocean_upper"], o)
        if o < p["tocean_lower"]:
            active.add("tocean_lower")
        o = max(p["tocean_lower"], o)
        t = c.start + i * c.period
        other = p["fex1"] if t >= c.saturation else p["fex0"] + (p["fex1"] - p["fex0"]) * (i * c.period) / (c.saturation - c.start)
        f = p["fco22x"] * math.log(x[0] / p["mateq"]) / math.log(2) + other
        a = ta[-1] + p["c1"] * (f - p["fco22x"] / p["t2xco2"] * ta[-1] - p["c3"] * (ta[-1] - to[-1]))
        if a > p["tatm_upper"]:
            active.add("tatm_upper")
        a = min(p["tatm_upper"], a)
        for series, v in ((mat, x[0]), (ml, x[1]), (mu, x[2]), (ta, a), (to, o), (forc, f)):
            series.append(v)
    return {"mat": mat, "ml": ml, "mu": mu, "tatm": ta, "tocean": to, "forc": forc}, active


def fits(c):
    """the emissions cover the run, the run has enough steps and stays in range"""
    return c.n >= 3 and len(c.axis) >= 4 and c.axis[0] <= c.start and c.axis[-1] >= c.start + c.n * c.period and c.grid(2)[-1] < gen.year_start(9990)


MAY_VANISH = ("mat_lower", "ml0", "ml_lower", "mu0", "mu_lower", "tatm0", "tocean0", "tocean_lower", "tocean_upper", "b12", "b23", "c1", "c3", "c4", "fex0", "fex1", "fco22x")


def finite(c):
    try:
        return all(math.isfinite(x) for v in simulate(c)[0].values() for x in v)
    except ValueError:  # no carbon left in the atmosphere
        return False


def config(rng, wild=True, max_n=40):
    for _ in range(200):
        period = rng.choice([YEAR, YEAR, YEAR, 30 * 86400, 5 * YEAR, 86400 * 10, rng.randint(3600, 4 * YEAR), 86400 * rng.randint(1, 900)])
        start = gen.year_start(rng.choice([1765, 1900, 2000, 2010, 2095, 2090, 2150, 1650, 2260, 2500])) + rng.choice([0, 0, 86400 * rng.randint(0, 300), rng.randint(0, 86400)])
        n = rng.randint(3, max_n)
        stop = start + (n - 1) * period + rng.choice([0, 0, rng.randint(0, period - 1)])
        end = start + n * period
        k = rng.choice(["grid", "longer", "irregular", "coarse"])
        if k == "grid":
            axis = [start + i * period for i in range(n + 1)]
        elif k == "longer":
            axis = [start + i * period for i in range(-2, n + 4)]
        elif k == "coarse":
            step = (end - start) // 3 + 1
            axis = [start + i * step for i in range(5)]
        else:
            axis = sorted({start - rng.randrange(0, period + 1), end + rng.randrange(0, period + 1)} | {rng.randint(start, end) for _ in range(rng.randint(2, 12))})
        size = rng.choice([0, 1, 10, 10, 40])
        trend = rng.choice([0, 0, size])
        style = rng.choice(["noise", "flat", "ramp", "ramp"])
        m = len(axis) - 1
        em = [trend + (rng.uniform(-size, size) if style == "noise" else size if style == "flat" else size * i / m) for i in range(m)]
        if wild and rng.random() < 0.2:
            em = [x * rng.choice([30, -30]) for x in em]
        params = {}
        if rng.random() < 0.7:
            for name in rng.sample(sorted(DEFAULTS), rng.randint(1, 6)):
                v = DEFAULTS[name][0]
                params[name] = v * rng.uniform(0.6, 1.5) if rng.random() < 0.8 else rng.choice([v, v * 2.0])
                if name in MAY_VANISH and rng.random() < 0.15:
                    params[name] = rng.choice([0.0, 0.0, -v]) if name in ("fex0", "fex1", "tatm0", "tocean0") else 0.0
        if wild and rng.random() < 0.25:
            name, v = rng.choice([("mat_lower", 800.0), ("ml_lower", rng.choice([10005.0, 10012.0, 10040.0])), ("mu_lower", 1600.0), ("tatm_upper", 0.9), ("tocean_upper", 0.01), ("tocean_lower", 0.0069), ("tocean_lower", 0.5)])
            params[name] = v
        sat = rng.choice([SATURATION, SATURATION, start + rng.randrange(-n, 2 * n) * period, start + rng.randrange(1, n * period), start])
        c = Config(start, stop, period, em, axis, params, rng.random() < 0.5, sat, {x for x in ("period_length", "original_rounding", "forcoth_saturation_time") if rng.random() < 0.5})
        if c.period != YEAR:
            c.also.add("period_length")
        if not c.rounding:
            c.also.add("original_rounding")
        if c.saturation != SATURATION:
            c.also.add("forcoth_saturation_time")
        if fits(c) and finite(c):
            return c
    raise AssertionError("no configuration found")


def instant(rng, t):
    """np.datetime64 of some resolution"""
    if t % 86400 == 0 and rng.random() < 0.5:
        return gen.as_dt64([t], "D")[0]
    return gen.as_dt64([t], rng.choice(["s", "s", "ms"]))[0]


def span(rng, s):
    if s % 86400 == 0 and rng.random() < 0.6:
        return np.timedelta64(s // 86400, "D")
    return np.timedelta64(s, "s")


def supply(rng, p, c, emissions=True, plain=False):
    """write a configuration into a ParameterSet -> view of the emissions, its unit"""
    p.generic("Start Time").value = instant(rng, c.start)
    p.generic("Stop Time").value = instant(rng, c.stop)
    if "period_length" in c.also:
        p.generic(("DICE", "period_length")).value = span(rng, c.period)
    if "original_rounding" in c.also:
        p.generic(("DICE", "original_rounding")).value = c.rounding
    if "forcoth_saturation_time" in c.also:
        p.generic(("DICE", "forcoth_saturation_time")).value = instant(rng, c.saturation)
    for name, v in c.given.items():
        set_param(rng, p, name, v, plain)
    if emissions:
        return set_emissions(rng, p, c, plain=plain)


def full_name(name):
    return STANDARD.get(name, ("DICE", name))


def set_param(rng, p, name, v, plain=False):
    us = UNITS[DEFAULTS[name][1]]
    u = us[0] if plain else rng.choice(us)
    p.scalar(full_name(name), u.name).value = v / u.scale
    return u


def set_emissions(rng, p, c, name=("Emissions", "CO2"), values=None, axis=None, plain=False):
    u = GTC if plain else rng.choice(EMISSIONS)
    w = p.timeseries(name, u.name, gen.as_dt64(axis or c.axis), timeseries_type="average")
    w.values = [ref.uconv(x, GTC, u) for x in (values if values is not None else c.emissions)]
    return w, u


def outputs(o, s, c, n=None):
    """read all outputs over the grid of the model"""
    out = {}
    for k, (name, unit, kind) in OUTPUTS.items():
        tp = gen.as_dt64(c.grid(1) if kind == "average" else c.grid())
        out[k] = [float(x) for x in o.call("read " + k, lambda: s.output.timeseries(name, unit, tp, timeseries_type=kind).values)]
    return out


def tolerances(exp, c):
    """of reading through another view"""
    tol = {}
    for k, v in exp.items():
        kind = OUTPUTS[k][2]
        grid = c.grid(1) if kind == "average" else c.grid()
        big = max(map(abs, v))
        tol[k] = 1e-8 * big + 1e-12 + 2 * conv_tol(kind, grid, [x if x else 1e-3 for x in v], grid, "none")
    return tol


def agree(o, got, exp, c, msg, upto=None, **info):
    tol = tolerances(exp, c)
    for k in exp:
        o.eq(len(got[k]), len(exp[k]), msg + ": length of " + k)
        e = slice(0, upto)
        o.close(got[k][e], exp[k][e], "{}: {}".format(msg, k), rtol=0, atol=tol[k], **info)


class Poison:
    """
    Uninitialised-memory sanitizer: np.empty called from the library gives arrays full of
    a poison value, so results which read memory that was never written become visible.
    """

    def __init__(self, value=float("nan")):
        self.value, self.count = value, 0

    def __enter__(self):
        import sys

        self.real = np.empty

        def empty(*a, **k):
            out = self.real(*a, **k)
            if sys._getframe(1).f_globals.get("__name__", "").startswith("openscm") and isinstance(out, np.ndarray) and out.dtype.kind == "f":
                out.fill(self.value)
                self.count += 1
            return out

        np.empty = empty
        return self

    def __exit__(self, *exc):
        np.empty = self.real
