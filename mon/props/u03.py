import csv
import functools
import json
import math
import os
import subprocess
import sys
import warnings

import numpy as np

from openscm.core.units import DimensionalityError, UndefinedUnitError, UnitConverter
from openscm.scmdataframe import ScmDataFrame

from mon import core, gen, scm, species
from mon.core import Family

RULE = (
    "a case is a history of conversions under changing contexts (three metrics, two chemistry contexts, none, unknown ones), successes and failures mixed, over "
    "all listed gases in bare, per-time, mass and mass-per-time units; every conversion is compared with the published table kept in /verif and, after each, "
    "probes without context and with other contexts must be unaffected; non-trivial: a context conversion followed by probes"
)
METRICS = ["SARGWP100", "AR4GWP100", "AR5GWP100"]
with open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "gwp.csv")) as _f:
    TABLE = {r["species"]: {m: (float(r[m]) if r[m] else float("nan")) for m in METRICS} for r in csv.DictReader(_f)}
GASES = sorted(TABLE)
COVER = ["gas " + g for g in GASES] + METRICS + [
    "bare", "mass", "mass per time", "per time", "to CO2", "to C", "from CO2", "from C", "no value", "no context refused", "unlisted gas refused", "unknown context",
    "after failure", "other context", "upper case", "alias", "chemistry context", "frame", "fresh process", "context without need", "incompatible in context",
    "unknown unit in context", "array",
]
ASSUMPTIONS = ["mon/gwp.csv is the table of the pinned commit", "Pint's own transformation graph is part of the system under test"]
TECHNIQUE = "trace monitor over histories of conversions: each value against the published table, each probe against leak-freedom"
CARBON = {"CO2": 1.0, "carbon_dioxide": 1.0, "C": 44 / 12, "carbon": 44 / 12}
PARTS = 6


def unit(rng, o, name, kind, glue=True):
    """-> (text, scale)"""
    t, m = rng.choice(sorted(species.TIME)), rng.choice(sorted(species.MASS))
    o.cover(kind)
    text, scale = name, 1.0
    if kind.startswith("mass"):
        text = m + name if glue and rng.random() < 0.5 else rng.choice(["{} {}", "{} * {}"]).format(m, name)
        scale *= species.MASS[m]
    if kind.endswith("per time"):
        text += rng.choice(["/{}", " / {}", " per {}"]).format(t)
        scale /= species.TIME[t]
    return text, scale


def spelled(rng, o, gas):
    fam = next(f for f in species.FAMILIES if gas in species.FAMILIES[f])
    ratio = species.FAMILIES[fam][gas]
    same = [s for s, r in species.spellings(fam).items() if r == ratio]
    s = rng.choice([gas, gas] + same)
    if s in species.ALIASES:
        o.cover("alias")
    elif s != gas:
        o.cover("upper case")
    return s, s not in species.ALIASES


def converter(o, a, b, context):
    """-> (converter, number of warnings about missing conversions)"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        uc = o.returns("UnitConverter({!r}, {!r}, {!r})".format(a, b, context), UnitConverter, a, b, context=context)
    return uc, [x for x in w if "No conversion" in str(x.message)]


def metric_conversion(rng, o, gas, metric, kind=None):
    kind = kind or rng.choice(["bare", "mass", "mass per time", "per time"])
    name, glue = spelled(rng, o, gas)
    a, sa = unit(rng, o, name, kind, glue)
    c = rng.choice(["CO2", "CO2", "CO2", "C", "carbon", "carbon_dioxide"])
    b, sb = unit(rng, o, c, kind, c in ("CO2", "C"))
    factor = TABLE[gas][metric] * sa / (CARBON[c] * sb)
    o.cover("gas " + gas)
    o.cover(metric)
    back = rng.random() < 0.4
    if back:
        a, b, factor = b, a, 1 / factor
    o.cover(("from " if back else "to ") + ("C" if CARBON[c] != 1 else "CO2"))
    v = gen.values(rng, 3, "normal")
    uc, warned = converter(o, a, b, metric)
    o.eq(bool(warned), math.isnan(factor), "warning about a missing conversion", source=a, target=b, context=metric)
    if math.isnan(factor):
        o.cover("no value")
    o.cover("array")
    o.close(uc.convert_from(np.array(v)), [x * factor for x in v], "conversion under a metric", rtol=1e-9, atol=1e-10 * abs(factor) if factor == factor else 0, source=a, target=b, context=metric)
    o.close(uc.convert_to(np.array(v)), [x / factor for x in v], "conversion under a metric, backwards", rtol=1e-9, atol=1e-10 / abs(factor) if factor == factor else 0, source=a, target=b, context=metric)
    o.state(gas, metric, kind, back)
    return a, b, kind


def no_context(rng, o, a, b):
    o.raises(DimensionalityError, "UnitConverter({!r}, {!r})".format(a, b), UnitConverter, a, b)
    o.cover("no context refused")


UNLISTED = ["CO", "BC", "OC", "NOx", "SO2", "S", "VOC", "C7F16", "C8F18", "SOx", "NMVOC"]


def failure(rng, o):
    k = rng.randrange(4)
    metric = rng.choice(METRICS)
    if k == 0:
        kind = rng.choice(["bare", "mass", "mass per time", "per time"])
        g = rng.choice(UNLISTED)
        a, b = unit(rng, o, g, kind)[0], unit(rng, o, "CO2", kind)[0]
        if rng.random() < 0.5:
            a, b = b, a
        o.raises(DimensionalityError, "UnitConverter({!r}, {!r}, {!r})".format(a, b, metric), UnitConverter, a, b, context=metric)
        o.cover("unlisted gas refused")
    elif k == 1:
        o.raises(KeyError, "unknown context", UnitConverter, "CH4", "CO2", context=rng.choice(["AR6GWP100", "junk", "AR4GWP20", ""]))
        o.cover("unknown context")
    elif k == 2:
        g = rng.choice(GASES)
        a, b = rng.choice([("{}", "K"), ("{}/yr", "CO2"), ("t {}", "CO2"), ("{}", "kg"), ("t {}/yr", "t CO2")])
        a = a.format(g)
        o.raises(DimensionalityError, "UnitConverter({!r}, {!r}, {!r})".format(a, b, metric), UnitConverter, a, b, context=metric)
        o.cover("incompatible in context")
    else:
        o.raises(UndefinedUnitError, "unknown unit", UnitConverter, rng.choice(["t CH44", "junk"]), "CO2", context=metric)
        o.cover("unknown unit in context")
    o.cover("after failure")


CHEM = {"CH4_conversions": ("C", "CH4", 16 / 12), "NOx_conversions": ("N", "NOx", 46 / 14)}


def chemistry(rng, o):
    context = rng.choice(sorted(CHEM))
    a, b, f = CHEM[context]
    v = gen.values(rng, 3, "normal")
    uc, _ = converter(o, a, b, context)
    o.close(uc.convert_from(np.array(v)), [x * f for x in v], "conversion under a chemistry context", atol=1e-10, context=context)
    uc, _ = converter(o, b, a, context)
    o.close(uc.convert_from(np.array(v)), [x / f for x in v], "conversion under a chemistry context, backwards", atol=1e-10, context=context)
    no_context(rng, o, a, b)
    o.raises(DimensionalityError, "metric does not do chemistry", UnitConverter, "N", "NOx", context=rng.choice(METRICS))
    o.cover("chemistry context")


def plain(rng, o):
    """conversions which need no context are the same in all of them"""
    a, b, f = rng.choice([("GtC", "MtCO2", 44 / 12 * 1e3), ("kt CH4/yr", "Mt CH4/yr", 1e-3), ("W/m^2", "mW/m^2", 1e3), ("N2O", "N", 14 / 44), ("K", "mK", 1e3), ("SO2", "S", 0.5)])
    for c in [None, rng.choice(METRICS), rng.choice(sorted(CHEM))]:
        uc, warned = converter(o, a, b, c)
        o.close(uc.convert_from(2.5), 2.5 * f, "conversion without need for a context", atol=1e-10, source=a, target=b, context=c)
        o.check(not warned, "warning about an existing conversion", source=a, target=b)
    o.cover("context without need")


def history(rng, o):
    for _ in range(rng.randint(4, 8)):
        k = rng.randrange(6)
        if k == 0:
            failure(rng, o)
        elif k == 1:
            chemistry(rng, o)
        elif k == 2:
            plain(rng, o)
        gas = rng.choice(GASES)
        first, second = rng.choice(METRICS), rng.choice(METRICS)
        if rng.random() < 0.3:
            no_context(rng, o, "t " + gas, "t CO2")
        a, b, kind = metric_conversion(rng, o, gas, first)
        if rng.random() < 0.7:
            no_context(rng, o, a, b)
            o.nontrivial()
        if second != first:
            o.cover("other context")
        metric_conversion(rng, o, gas, second, kind)
        no_context(rng, o, *rng.sample([a, b], 2))


def table(part, rng, o):
    """every gas under every metric in every form"""
    for gas in GASES[part::PARTS]:
        for metric in METRICS:
            for kind in ["bare", "mass", "mass per time", "per time"]:
                a, b, _ = metric_conversion(rng, o, gas, metric, kind)
        no_context(rng, o, a, b)
    o.nontrivial()


def frames(rng, o):
    """the same through ScmDataFrame.convert_unit"""
    metric = rng.choice(METRICS)
    gases = rng.sample(GASES, rng.randint(2, 4))
    ts = gen.axis(rng, n=4, style="annual")
    rows, scale = [], []
    target = rng.choice([("MtCO2/yr", 1e12 / species.TIME["yr"]), ("Gt C / a", 1e15 * 44 / 12 / species.TIME["yr"])])
    for g in gases:
        u, s = unit(rng, o, g, "mass per time")
        rows.append({"model": "m", "scenario": "s", "region": "World", "variable": "Emissions|" + g, "unit": u})
        scale.append(TABLE[g][metric] * s / target[1])
    vals = scm.matrix(rng, len(rows), 4)
    df = scm.Model(rows, ts, vals).build()
    o.raises(DimensionalityError, "convert_unit without context", df.convert_unit, target[0])
    out = o.returns("convert_unit({!r}, {!r})".format(target[0], metric), df.convert_unit, target[0], context=metric)
    exp = scm.Model([dict(r, unit=target[0], unit_context=metric) for r in rows], ts, [[x * f for x in v] for v, f in zip(vals, scale)])
    scm.compare(o, scm.read(o, out), exp, "frame converted under a metric", rtol=1e-9, atol=1e-300, context=metric)
    o.raises(DimensionalityError, "convert_unit without context", df.convert_unit, target[0])
    o.cover("frame")


PROGRAM = """
import json, sys, warnings
warnings.simplefilter("ignore")
from openscm.core.units import UnitConverter
out = []
for a, b, c in json.load(sys.stdin):
    try:
        out.append(UnitConverter(a, b, context=c).convert_from(1.0))
    except Exception as e:
        out.append(type(e).__name__)
print(json.dumps(out))
"""


def fresh(rng, o):
    """the first conversions of a process"""
    steps, exp = [], []
    for i in range(rng.randint(6, 12)):
        g = rng.choice([x for x in GASES])
        c = rng.choice([None, None] + METRICS)
        steps.append(("t {}".format(g), "t CO2", c))
        exp.append("DimensionalityError" if c is None else TABLE[g][c])
        if rng.random() < 0.3:
            steps.append(rng.choice([("CH4", "K", "AR4GWP100"), ("t BC", "t CO2", "AR5GWP100")]))
            exp.append("DimensionalityError")
        if rng.random() < 0.2:
            steps.append(("CH4", "CO2", "junk"))
            exp.append("KeyError")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=core.REPO)
    p = subprocess.run([sys.executable, "-B", "-c", PROGRAM], input=json.dumps(steps), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, universal_newlines=True, timeout=100)
    o.check(p.returncode == 0, "process failed", stderr=p.stderr[-500:])
    o.event("process", "{}", steps)
    for s, got, e in zip(steps, json.loads(p.stdout.splitlines()[-1]), exp):
        if isinstance(e, str) or isinstance(got, str):
            o.eq(got, e, "outcome in a fresh process", step=s, steps=steps)
        else:
            o.close(got, e, "factor in a fresh process", step=s, steps=steps)
    o.cover("fresh process")
    o.nontrivial()


FAMILIES = [Family("table {}/{}".format(p + 1, PARTS), functools.partial(table, p), 2, 40) for p in range(PARTS)] + [
    Family("history", history, 60, 1200),
    Family("frames", frames, 30, 400),
    Family("fresh", fresh, 4, 40),
]
