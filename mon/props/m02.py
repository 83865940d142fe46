import math

from openscm import OpenSCM
from openscm.core.parameterset import ParameterSet

from mon import dice, gen, ref
from mon.core import Family
from mon.dice import DEFAULTS, OUTPUTS, STANDARD, UNITS, YEAR

RULE = (
    "a case is a random configuration of DICE (times, period, emissions on any axis, parameters, limits, saturation time, rounding) run through the public interface; the outputs "
    "are compared with the difference equations (mon/dice.py) and checked for carbon conservation; non-trivial: emissions are not constant and at least one parameter is supplied"
)
COVER = [
    "defaults only", "parameter supplied", "parameter in other unit", "standard parameter supplied", "rounding", "no rounding", "mat_lower", "ml_lower", "mu_lower", "tatm_upper", "tocean_upper", "tocean_lower",
    "saturation within the run", "saturation before the run", "saturation after the run", "saturation at a step", "saturation at start", "stop between steps", "emissions on another axis", "emissions in other unit",
    "negative emissions", "other period", "carbon conserved", "defaults visible", "before 1677", "after 2262", "sub-daily period", "supplied keep their value", "zero supplied", "negative supplied",
] + ["supplied " + k for k in sorted(DEFAULTS)]
ASSUMPTIONS = ["a year of the adapter has 365 days; with original rounding 3.666 t CO2 are 1 t C", "emissions between time points follow the library's average interpolation (exact rational reference)"]
TECHNIQUE = "outputs of every run checked against the published difference equations step by step, plus a conservation monitor on the carbon pools"


def labels(o, c):
    grid = c.grid()
    if not c.given:
        o.cover("defaults only")
    else:
        o.cover("parameter supplied")
    for k in c.given:
        o.cover("supplied " + k)
        if c.given[k] <= 0:
            o.cover("zero supplied" if c.given[k] == 0 else "negative supplied")
        if k in STANDARD:
            o.cover("standard parameter supplied")
    o.cover("rounding" if c.rounding else "no rounding")
    s = c.saturation
    if s == c.start:
        o.cover("saturation at start")
    elif s < c.start:
        o.cover("saturation before the run")
    elif s > grid[-1]:
        o.cover("saturation after the run")
    else:
        o.cover("saturation within the run")
        if s in grid:
            o.cover("saturation at a step")
    if (c.stop - c.start) % c.period:
        o.cover("stop between steps")
    if c.axis != c.grid(1):
        o.cover("emissions on another axis")
    if min(c.emissions) < 0:
        o.cover("negative emissions")
    if c.period != YEAR:
        o.cover("other period")
    if c.period % 86400:
        o.cover("sub-daily period")
    if ref.from_seconds(c.start).year < 1677:
        o.cover("before 1677")
    if ref.from_seconds(c.stop).year > 2262:
        o.cover("after 2262")
    if len(set(c.emissions)) > 1 and c.given:
        o.nontrivial()
    o.state(c.n, c.rounding, len(c.given))


def equations(rng, o):
    c = dice.config(rng)
    p = ParameterSet()
    dice.supply(rng, p, c)
    if p.info(("Emissions", "CO2")).unit != "GtC/a":
        o.cover("emissions in other unit")
    if any(p.info(dice.full_name(k)).unit != DEFAULTS[k][1] for k in c.given):
        o.cover("parameter in other unit")
    s = OpenSCM("DICE", p)
    o.event("run", "{} steps of {} s from {} with {} rounding {} saturation {}", c.n, c.period, ref.from_seconds(c.start), c.given, c.rounding, c.saturation - c.start)
    o.call("run", s.run)
    exp, active = dice.simulate(c)
    got = dice.outputs(o, s, c)
    dice.agree(o, got, exp, c, "outputs and equations", given=c.given, start=str(ref.from_seconds(c.start)), period=c.period)
    for a in active:
        o.cover(a)
    labels(o, c)
    # conservation, from the outputs alone
    if not active & {"mat_lower", "ml_lower", "mu_lower"}:
        e = ref.convert("average", c.axis, c.emissions, c.grid(1), "none")
        total = [sum(v) for v in zip(got["mat"], got["ml"], got["mu"])]
        for i in range(1, c.n):
            carbon = e[i - 1] * c.period / YEAR * (44 / 12 / 3.666 if c.rounding else 1)
            o.close(total[i] - total[i - 1], carbon, "carbon is not conserved", rtol=0, atol=1e-7 * max(map(abs, total)), step=i)
        o.cover("carbon conserved")
    for name, v in c.params.items():
        unit = DEFAULTS[name][1]
        o.close(float(s.parameters.scalar(dice.full_name(name), unit).value), v, "value of the parameter " + name, rtol=1e-9)
        o.cover("supplied keep their value" if name in c.given else "defaults visible")


FAMILIES = [Family("equations", equations, 1400, 12000)]
