import math

import numpy as np
import pandas as pd

from openscm.core.parameters import ParameterType
from openscm.core.parameterset import ParameterSet
from openscm.errors import InsufficientDataError
from openscm.scmdataframe import ScmDataFrame, convert_openscm_to_scmdataframe

from mon import gen, ref, scm
from mon.core import Family
from mon.pset import TYPES
from mon.tsmodel import conv_tol

RULE = (
    "a case is a random frame of one scenario (regions and variables of any depth, both types given or guessed, units of all dimensions, generic and scalar metadata) "
    "converted to a ParameterSet whose parameters are all read back in stored and other units, exported again over the same and other time points; or a random ParameterSet "
    "built by hand and exported; non-trivial: both types and at least two region levels"
)
COVER = [
    "to_parameterset", "export same times", "export other times", "round trip", "both types", "types given", "types guessed", "types partly given", "deep region", "deep variable", "generic text",
    "generic number", "scalar metadata", "hierarchical generic", "existing ParameterSet", "one timeseries", "read in other unit", "climate_model refused", "climate_model unspecified", "differing metadata refused",
    "source unchanged", "hand built", "model and scenario arguments", "model from parameters", "region generic refused", "region scalar refused", "export beyond refused", "before 1677", "after 2262",
    "same variable in several regions", "export leaves ParameterSet alone", "inner nodes not exported", "not in World refused", "missing generic", "hierarchical scalar",
    "unordered time points", "parentheses in unit or name", "parentheses within a name", "differing identity", "differing extra", "differing scalar",
]
ASSUMPTIONS = [
    "values are complete, at least three time points, no timeseries stands above another one in its region, one timeseries per variable and region, regions within World",
    "metadata names do not clash with variables; scalar metadata has a known unit",
]
TECHNIQUE = "every parameter of the produced ParameterSet read through fresh views; exported frames compared with the model (exact rational conversions)"

DEEP = ["Emissions|CO2|Fossil|Gas|x", "Emissions|CO2|AFOLU", "Emissions|CH4", "Surface Temperature", "Radiative Forcing|CO2|y", "Radiative Forcing|z", "Heat Uptake", "Ocean|a|b|c", "Ocean|a|d", "Price (2005)", "Carbon Pool|Soil"]
REGION = ["World", "World|NH", "World|NH|Ocean", "World|SH", "World|SH|Land|x", "World|R5.2ASIA", "World|R5.2ASIA|China|North"]


SCALARS = {
    "ecs (K)": ("ecs", "K"), "depth (m)": ("depth", "m"), "f2x (W/m^2)": ("f2x", "W/m^2"), "DICE|ecs (K)": ("DICE|ecs", "K"), "Ocean|mixed layer|depth (m)": ("Ocean|mixed layer|depth", "m"),
    "odd (km)": ("odd", "km"), "sensitivity parameter (delta_degC / (W / m^2))": ("sensitivity parameter", "delta_degC / (W / m^2)"), "capacity ((W a) / (m^2 K))": ("capacity", "(W a) / (m^2 K)"),
    "mass (total) (kg)": ("mass (total)", "kg"), "rate (1/(s))": ("rate", "1/(s)"), "a|b (x)|c (1 / (m (s)))": ("a|b (x)|c", "1 / (m (s))"),
}
# ends with no unit
PLAIN = ["stage (of work) reached", "(first) note", "share (%) of"]


def kinds_of(rng, o, rows, style):
    """parameter types as given or guessed"""
    kinds = []
    for r in rows:
        k = scm.kind(r)
        if style != "guessed":
            r["parameter_type"] = None
        if style == "given" or (style == "partly" and rng.random() < 0.5):
            k = rng.choice([k, k, "point", "average"])
            r["parameter_type"] = rng.choice([k, k.upper()])
        kinds.append(k)
    o.cover({"guessed": "types guessed", "given": "types given", "partly": "types partly given"}[style])
    return kinds


def build(rng, o):
    for _ in range(30):
        ts = scm.times(rng, n=rng.randint(3, 8))
        if ts[0] >= gen.year_start(2) and 2 * ts[-1] - ts[-2] < gen.year_start(9998):
            break
    else:
        ts = [gen.year_start(2000 + i) for i in range(4)]
    places = sorted({(rng.choice(REGION), rng.choice(DEEP)) for _ in range(rng.choice([1, 2, 4, 7]))})
    rng.shuffle(places)
    common = {"model": rng.choice(scm.MODELS), "scenario": rng.choice(scm.SCENARIOS + ["a, b", "x|y"])}
    for _ in range(rng.choice([0, 1, 2, 3])):
        name, v = rng.choice([
            ("stage", "final"), ("run", 3), ("sensitivity", 2.5), ("ecs (K)", 3.25), ("depth (m)", 50), ("todo", ""), ("note|author", "me"), ("flag", True), ("f2x (W/m^2)", -1.5), ("climate_model", "unspecified"),
            ("year of birth", 1e22), ("missing", None), ("unit_context", rng.choice(["AR4GWP100", None])), ("DICE|ecs (K)", 2.75), ("Ocean|mixed layer|depth (m)", 75), ("odd (km)", 0.5),
            (rng.choice(sorted(SCALARS)), rng.choice([0.125, 7, -3.5, 1e-9])), (rng.choice(PLAIN), rng.choice(["x", 4])),
        ])
        common[name] = v
    rows = [dict(common, region=r, variable=v, unit=rng.choice(sorted(scm.UNIT))) for r, v in places]
    kinds = kinds_of(rng, o, rows, rng.choice(["given", "guessed", "partly"]))
    m = scm.Model(rows, ts, scm.matrix(rng, len(rows), len(ts)))
    labels(o, m, kinds)
    return m, kinds, common


def labels(o, m, kinds):
    depth = {r["region"].count("|") for r in m.rows}
    if max(depth) > 1:
        o.cover("deep region")
    if any(r["variable"].count("|") > 2 for r in m.rows):
        o.cover("deep variable")
    if len(set(kinds)) > 1:
        o.cover("both types")
        if len(depth) > 1:
            o.nontrivial()
    if len(m.rows) == 1:
        o.cover("one timeseries")
    if len({r["variable"] for r in m.rows}) < len(m.rows):
        o.cover("same variable in several regions")
    if ref.from_seconds(m.times[0]).year < 1677:
        o.cover("before 1677")
    if ref.from_seconds(m.times[-1]).year > 2262:
        o.cover("after 2262")
    o.state(len(m.rows), tuple(sorted(depth)), len(set(kinds)))


def axis(kind, ts):
    return scm.extended(ts) if kind == "average" else ts


def scalar_name(name):
    """'name (unit)' -> name, unit"""
    return SCALARS.get(name)


def tolerance(kind, src, vals, tgt, unit, ex="none"):
    """conversion on writing and on reading"""
    a = conv_tol(kind, src, vals, src, ex) if src != tgt else 0.0
    return 2 * conv_tol(kind, src, vals, tgt, ex) + a + 1e-8 * max(map(abs, vals)) + 4 * max(ref.utol(x, unit, unit, unit) for x in vals)


def check_set(rng, o, p, m, kinds, common):
    """everything of the frame is in the ParameterSet"""
    for i, r in enumerate(m.rows):
        name = rng.choice([r["variable"], tuple(r["variable"].split("|"))])
        region = rng.choice([r["region"], tuple(r["region"].split("|"))])
        tp = gen.as_dt64(axis(kinds[i], m.times))
        info = p.info(name, region=region)
        o.check(info is not None, "parameter is missing", parameter=name, region=region)
        o.eq(info.parameter_type, TYPES[kinds[i]], "type of the parameter")
        o.eq(info.unit, r["unit"], "unit of the parameter")
        fam, a = scm.UNIT[r["unit"]]
        b = a
        if rng.random() < 0.4:
            b = rng.choice(ref.FAMILIES[fam])
            o.cover("read in other unit")
        v = o.returns("read back", lambda: list(p.timeseries(name, b.name, tp, region=region, timeseries_type=kinds[i]).values))
        exp = [ref.uconv(x, a, b) for x in m.vals[i]]
        src = axis(kinds[i], m.times)
        scale = max(abs(x) for x in exp)
        unit = 4 * max(ref.utol(x, a, b, a) for x in m.vals[i])
        mag = [x if x else 1.0 for x in exp]
        o.close(v, exp, "values of the parameter", rtol=0, atol=conv_tol(kinds[i], src, mag, src, "none") * 2 + 1e-8 * scale + unit, timeseries=r)
    for k, v in common.items():
        s = scalar_name(k)
        if s:
            o.eq(p.info(s[0]).parameter_type, ParameterType.SCALAR, "type of metadata " + k)
            o.close(float(p.scalar(s[0], s[1]).value), float(v), "scalar metadata", rtol=1e-12)
            o.cover("scalar metadata")
            if "|" in k:
                o.cover("hierarchical scalar")
            if k.count("(") > 1:
                o.cover("parentheses in unit or name")
        else:
            o.eq(p.info(k).parameter_type, ParameterType.GENERIC, "type of metadata " + k)
            o.eq(scm.typed(p.generic(k).value), scm.typed(v), "generic metadata")
            if "(" in k:
                o.cover("parentheses within a name")
            o.cover("generic text" if isinstance(v, str) else "generic number" if v is not None else "missing generic")
            if "|" in k:
                o.cover("hierarchical generic")


def exported(m, kinds, tgt, common):
    """the frame which convert_openscm_to_scmdataframe has to give"""
    rows, vals, tol = [], [], []
    for r, k, v in zip(m.rows, kinds, m.vals):
        new = dict({"climate_model": "unspecified"}, **r)
        new["parameter_type"] = k
        src, t = axis(k, m.times), axis(k, tgt)
        x = ref.convert(k, src, v, t, "none")
        vals.append(x)
        tol.append([tolerance(k, src, v, t, scm.UNIT[r["unit"]][1])] * len(x))
        rows.append(new)
    return scm.Model(rows, tgt, vals), tol


def frame(rng, o):
    m, kinds, common = build(rng, o)
    src = m
    if rng.random() < 0.2:
        src = m.unordered(rng)
        if src.times != m.times:
            o.cover("unordered time points")
    f = src.build()
    before = scm.read(o, f)
    o.event("to_parameterset", "{} timeseries {} {}", len(m.rows), kinds, common)
    if rng.random() < 0.3:
        p0 = ParameterSet()
        p0.generic("other").value = 5
        p0.timeseries("Unrelated", "K", gen.as_dt64(m.times)).values = [1.0] * len(m.times)
        p = o.returns("to_parameterset(existing)", f.to_parameterset, p0)
        o.check(p is p0, "returns another ParameterSet")
        o.eq(p.generic("other").value, 5, "existing parameter")
        o.close(list(p.timeseries("Unrelated", "K", gen.as_dt64(m.times)).values), [1.0] * len(m.times), "existing timeseries", rtol=1e-9)
        o.cover("existing ParameterSet")
        check_set(rng, o, p, m, kinds, common)
        scm.compare(o, scm.read(o, f), before, "frame after to_parameterset", order=True)
        return
    p = o.returns("to_parameterset", f.to_parameterset)
    o.cover("to_parameterset")
    if common.get("climate_model"):
        o.cover("climate_model unspecified")
    check_set(rng, o, p, m, kinds, common)
    scm.compare(o, scm.read(o, f), before, "frame after to_parameterset", order=True)
    o.cover("source unchanged")
    g = o.returns("export", convert_openscm_to_scmdataframe, p, gen.as_dt64(m.times))
    o.cover("export same times")
    exp, tol = exported(m, kinds, m.times, common)
    for r, s in zip(exp.rows, m.rows):
        for c in common:
            if isinstance(common[c], bool):
                r[c] = float(common[c])
    scm.compare(o, normal(scm.read(o, g)), normal(exp), "frame converted to a ParameterSet and back", atol=tol)
    o.cover("round trip")
    if rng.random() < 0.3:
        check_set(rng, o, p, m, kinds, common)
        g2 = o.returns("export again", convert_openscm_to_scmdataframe, p, gen.as_dt64(m.times))
        scm.compare(o, scm.read(o, g2), scm.read(o, g), "exported twice", order=True)
    o.cover("export leaves ParameterSet alone")
    other(rng, o, p, m, kinds, common)


def normal(m):
    """numbers compared as numbers with scalars' rounding"""
    m = m.copy()
    for r in m.rows:
        for c, v in r.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                r[c] = float("{:.11e}".format(v))
            elif isinstance(v, bool):
                r[c] = float(v)
    return m


def other(rng, o, p, m, kinds, common):
    lo = m.times[0]
    hi = m.times[-1]
    if "average" in kinds:
        n = rng.randint(2, 5)
        step = rng.randrange(1, max(2, (hi - lo) // (n + 1)))
        tgt = [lo + i * step for i in range(n)]
    else:
        tgt = sorted({rng.randint(lo, hi) for _ in range(rng.randint(2, 6))})
    if len(tgt) < 2:
        return
    g = o.returns("export", convert_openscm_to_scmdataframe, p, gen.as_dt64(tgt))
    exp, tol = exported(m, kinds, tgt, common)
    scm.compare(o, normal(scm.read(o, g)), normal(exp), "exported onto other time points", atol=tol)
    o.cover("export other times")
    if rng.random() < 0.3:
        late = [lo, hi, hi + (hi - lo) * 2]
        o.raises(InsufficientDataError, "beyond the data", convert_openscm_to_scmdataframe, p, gen.as_dt64(late))
        o.cover("export beyond refused")


def by_hand(rng, o):
    """ParameterSets written without a frame, each timeseries on its own time points"""
    p = ParameterSet()
    base = gen.year_start(rng.choice([1500, 1900, 2000, 2300]))
    tgt = [base + i * rng.choice([366, 400]) * gen.DAY for i in range(1, 1 + rng.randint(2, 5))]
    tgt = sorted(set(tgt))
    if len(tgt) < 2:
        return
    end = 2 * tgt[-1] - tgt[-2]
    rows, vals, tol, kinds = [], [], [], []
    for region, variable in sorted({(rng.choice(REGION), rng.choice(DEEP)) for _ in range(rng.randint(1, 6))}):
        k = rng.choice(["point", "average"])
        src = sorted({base, end + gen.DAY} | {rng.randint(base, end) for _ in range(rng.randint(2, 6))})
        u = rng.choice(sorted(scm.UNIT))
        v = gen.values(rng, len(src) - (k == "average"))
        if len(v) < 3:
            continue
        p.timeseries(tuple(variable.split("|")), u, gen.as_dt64(src), region=region, timeseries_type=k).values = v
        rows.append({"region": region, "variable": variable, "unit": u, "parameter_type": k})
        kinds.append(k)
        t = axis(k, tgt)
        vals.append(ref.convert(k, src, v, t, "none"))
        tol.append([tolerance(k, src, v, t, scm.UNIT[u][1])] * len(tgt))
    if not rows:
        return
    if rng.random() < 0.4:
        # the sum of children is no leaf
        path = tuple(rows[0]["variable"].split("|"))
        if len(path) > 1 and len([r for r in rows if r["region"] == rows[0]["region"] and r["variable"].startswith(path[0] + "|")]) == 1:
            p.timeseries(path[:-1], rows[0]["unit"], gen.as_dt64(axis(kinds[0], tgt)), region=rows[0]["region"], timeseries_type=kinds[0]).values
            o.cover("inner nodes not exported")
    args, meta = {}, {"model": "unspecified", "scenario": "unspecified", "climate_model": "unspecified"}
    for c in meta:
        k = rng.choice(["none", "argument", "parameter", "both"])
        if k in ("argument", "both"):
            args[c] = meta[c] = "given " + c
        if k in ("parameter", "both"):
            p.generic(c).value = meta[c] = "stored " + c
            o.cover("model from parameters")
    if args:
        o.cover("model and scenario arguments")
    if rng.random() < 0.5:
        p.scalar("ECS", "K").value = 3.5
        meta["ecs (k)"] = 3.5
    if rng.random() < 0.3:
        p.scalar(("depth", "ocean"), "km").value = 2
        meta["depth|ocean (km)"] = 2.0
    if rng.random() < 0.3:
        p.scalar("feedback (net)", "W / (m^2 * delta_degC)").value = 1.25
        meta["feedback (net) (w / (m^2 * delta_degc))"] = 1.25
    m = scm.Model([dict(meta, **r) for r in rows], tgt, vals)
    labels(o, m, kinds)
    o.event("export by hand", "{} {}", kinds, meta)
    g = o.returns("export", convert_openscm_to_scmdataframe, p, gen.as_dt64(tgt, rng.choice(["s", "s", "ms"])), **args)
    got = scm.read(o, g)
    for r in got.rows:  # names of `columns` may be kept as given
        for c in list(r):
            if c != c.lower():
                r[c.lower()] = r.pop(c)
    scm.compare(o, normal(got), normal(m), "exported frame", atol=tol)
    o.cover("hand built")


def refused(rng, o):
    m, kinds, common = build(rng, o)
    k = rng.choice(["climate_model", "differing", "generic", "scalar", "world"])
    if k == "climate_model":
        for r in m.rows:
            r["climate_model"] = "MAGICC6"
        f = m.build()
        o.raises(ValueError, "climate_model", f.to_parameterset)
        o.cover("climate_model refused")
    elif k == "differing":
        if len(m.rows) < 2:
            return
        c = rng.choice(["model", "scenario", "extra", "unit_context", "ensemble_member", "ecs (K)"])
        m.rows[rng.randrange(len(m.rows))][c] = rng.choice(["different", "another"]) if c != "ecs (K)" else 9.5
        o.cover("differing " + ("identity" if c in ("model", "scenario") else "scalar" if c == "ecs (K)" else "extra"))
        f = m.build()
        before = scm.read(o, f)
        p = ParameterSet()
        o.raises(ValueError, "differing metadata", f.to_parameterset, p)
        o.check(all(p.info(r["variable"], region=r["region"]) is None for r in m.rows) and p.info("model") is None, "refused conversion filled the ParameterSet")
        scm.compare(o, scm.read(o, f), before, "frame after a refused conversion", order=True)
        o.cover("differing metadata refused")
    elif k == "world":
        m.rows[0]["region"] = "Atlantis"
        o.raises(ValueError, "region outside World", m.build().to_parameterset)
        o.cover("not in World refused")
    else:
        p = m.build().to_parameterset()
        region = rng.choice([r for r in REGION if r != "World"])
        if k == "generic":
            p.generic("local", region=region).value = "x"
            o.cover("region generic refused")
        else:
            p.scalar("local", "K", region=region).value = 1
            o.cover("region scalar refused")
        o.raises(ValueError, "metadata of a region", convert_openscm_to_scmdataframe, p, gen.as_dt64(m.times))


FAMILIES = [Family("frame", frame, 260, 2200), Family("by_hand", by_hand, 220, 2000), Family("refused", refused, 120, 600)]
FAMILIES += [
    Family("large frame", gen.large(frame), 17, 110),
]
