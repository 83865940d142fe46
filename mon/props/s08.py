import math
import re

from openscm.core.units import DimensionalityError, UndefinedUnitError

from mon import gen, ref, scm, species
from mon.core import Family
from mon.props.s02 import selects
from mon.props.u03 import METRICS, TABLE

RULE = (
    "a case is a random frame mixing timeseries of one dimension in several units with others, converted through random filters (patterns, keep=False, regexp, level, "
    "years) and contexts; selected rows are compared with unit definitions, all others must be bit-identical; non-trivial: at least two source units are converted "
    "while another timeseries is not selected"
)
COVER = [
    "several source units", "not selected untouched", "offset units", "missing values", "missing metadata", "same unit", "in place", "out of place", "there and back", "incompatible refused",
    "incompatible refused in place", "unknown unit refused", "context", "context replaced", "context needed", "keep=False", "regexp", "level", "by year", "by number", "nothing selected", "whole frame",
    "converted before", "order kept", "before 1677",
]
ASSUMPTIONS = ["timeseries without any value are not selected by filters", "gases and metrics as in the published table (mon/gwp.csv)"]
TECHNIQUE = "conversion events on frames checked row by row against unit definitions; unselected rows compared bit by bit"
CARBON = {"CO2": 1.0, "C": 44 / 12}
GASES = {"CO2", "C"} | set(TABLE)


def gas_unit(rng, gas):
    m, t = rng.choice(["Mt", "Gt", "kt", "g"]), rng.choice(["yr", "a", "d"])
    return "{} {} / {}".format(m, gas, t), species.MASS[m] / species.TIME[t]


def build(rng, o):
    """frame with a main dimension and others"""
    n = rng.randint(2, 8)
    ts = scm.times(rng, n=rng.randint(1, 6))
    context = rng.choice(METRICS) if rng.random() < 0.3 else None
    info = []  # per row: (dimension, U)
    rows = scm.metadata(rng, n, missing=rng.choice([0, 0.4]))
    main = "gas" if context else rng.choice(sorted(f for f in ref.FAMILIES if f != "dimensionless"))
    for i, r in enumerate(rows):
        d = main if rng.random() < 0.65 or i == 0 else rng.choice(sorted(f for f in ref.FAMILIES if f not in ("dimensionless", "emissions" if context else "")))
        if d == "gas":
            g = rng.choice(["CO2", "C", "CH4", "N2O", "SF6", "HFC23", "CF4"])
            text, s = gas_unit(rng, g)
            gwp = CARBON[g] if g in CARBON else TABLE[g][context]
            u = ref.U(text, s * gwp)
            u.gas = g
        else:
            u = rng.choice(ref.FAMILIES[d])
        r["unit"] = u.name
        info.append((d, u))
    if any(scm.norm(r.get("region")) is None for r in rows):
        return None
    m = scm.Model(rows, ts, scm.matrix(rng, len(rows), len(ts), rng.choice([0, 0, 0.3])))
    for v in m.vals:
        if all(math.isnan(x) for x in v):
            v[0] = 1.0
    if not m.unique() or len(rows) < n:
        return None
    return m, info, main, context


def selection(rng, o, m, info, main):
    """-> (filter arguments, selected rows)"""
    # a column which tells the main dimension apart
    for i, (d, u) in enumerate(info):
        if d != main and rng.random() < 0.9:
            m.rows[i]["variable"] = "Other|" + m.rows[i]["variable"]
    k = rng.choice(["pattern", "pattern", "list", "keep", "regexp", "level", "year", "number", "none", "two"])
    rows = range(len(m.rows))
    if k == "pattern":
        v = rng.choice(m.rows)["variable"]
        kw = {"variable": rng.choice([v, v[: len(v) // 2] + "*", "*"])}
    elif k == "list":
        c = rng.choice(["scenario", "region", "model", "variable"])
        kw = {c: sorted({rng.choice(m.rows)[c] for _ in range(rng.randint(1, 4))})}
    elif k == "keep":
        o.cover("keep=False")
        kw = {"variable": "Other|*"}
        return dict(kw, keep=False), [i for i in rows if not selects(m.rows[i], "variable", "Other|*")]
    elif k == "regexp":
        o.cover("regexp")
        v = re.escape(rng.choice(m.rows)["variable"])
        return {"variable": v, "regexp": True}, [i for i in rows if re.match(v, m.rows[i]["variable"])]
    elif k == "level":
        o.cover("level")
        return {"level": 0}, [i for i in rows if m.rows[i]["variable"].count("|") == 0]
    elif k == "year":
        o.cover("by year")
        y = rng.choice(m.datetimes()).year
        cols = [j for j, d in enumerate(m.datetimes()) if d.year == y]
        return {"year": y, "variable": "*"}, [i for i in rows if any(not math.isnan(m.vals[i][j]) for j in cols)]
    elif k == "number":
        o.cover("by number")
        for i in rows:
            m.rows[i]["run"] = i % 3
        return {"run": 1}, [i for i in rows if i % 3 == 1]
    elif k == "none":
        kw = {}
    else:
        kw = {"scenario": rng.choice(m.rows)["scenario"], "region": [r["region"] for r in m.rows[:2]]}
    return kw, [i for i in rows if all(selects(m.rows[i], c, v) for c, v in kw.items())]


def plain_ok(info, which, target, context):
    """is every selected timeseries convertible?"""
    for i in which:
        d, u = info[i]
        if d != target[0]:
            return False
        if d == "gas" and context is None and u.gas not in ("CO2", "C") and u.gas != target[1].gas:
            return False
    return True


def convert(rng, o):
    b = build(rng, o)
    if b is None:
        return
    m, info, main, context = b
    kw, which = selection(rng, o, m, info, main)
    if not m.unique():
        return
    if main == "gas":
        g = rng.choice(["CO2", "C"])
        text, s = gas_unit(rng, g)
        u = ref.U(text, s * CARBON[g])
        u.gas = g
        target = ("gas", u)
    else:
        target = (main, rng.choice(ref.FAMILIES[main]))
    use = context if main == "gas" and rng.random() < 0.85 else None
    f = m.build()
    if ref.from_seconds(m.times[0]).year < 1677:
        o.cover("before 1677")
    if any(math.isnan(x) for v in m.vals for x in v):
        o.cover("missing values")
    if any(r.get(c) is None for r in m.rows for c in m.cols):
        o.cover("missing metadata")
    name = target[1].name
    for i, (d, u) in enumerate(info):
        m.rows[i]["unit"] = u.name
    args = dict(kw, unit=name)
    if use is not None:
        args["context"] = use
    o.event("convert_unit", "{} selected {} of {} rows in {}", args, len(which), len(m.rows), sorted({u.name for _, u in info}))
    before = scm.read(o, f)
    if not plain_ok(info, which, target, use):
        inplace = rng.random() < 0.5
        o.raises(DimensionalityError, "incompatible units", f.convert_unit, inplace=inplace, **args)
        scm.compare(o, scm.read(o, f), before, "after a refused conversion", order=True)
        o.cover("incompatible refused in place" if inplace else "incompatible refused")
        if main == "gas" and use is None:
            o.cover("context needed")
        return
    exp = m.copy()
    tol = [[0.0] * len(m.times) for _ in m.rows]
    for r in exp.rows:
        r["unit_context"] = None
    for i in which:
        u = info[i][1]
        exp.vals[i] = [ref.uconv(x, u, target[1]) for x in m.vals[i]]
        tol[i] = [0.0 if math.isnan(x) else ref.utol(x, u, target[1], u) for x in m.vals[i]]
        if use and any(g not in ("CO2", "C") for g in [u.gas]):
            o.cover("context")
        exp.rows[i]["unit"], exp.rows[i]["unit_context"] = name, use
        if u.name == name:
            o.cover("same unit")
        if u.offset or target[1].offset:
            o.cover("offset units")
    if not exp.unique():
        return
    if rng.random() < 0.4:
        o.cover("in place")
        g = f.copy()
        o.check(o.returns("convert_unit inplace", g.convert_unit, inplace=True, **args) is None, "inplace returns something")
    else:
        o.cover("out of place")
        g = o.returns("convert_unit", f.convert_unit, **args)
        scm.compare(o, scm.read(o, f), before, "source of an out-of-place conversion", order=True)
    got = scm.read(o, g)
    # a frame none of whose rows was converted may or may not have the column
    scm.compare(o, got, exp, "converted frame", order=True, atol=tol, arguments=args)
    o.cover("order kept")
    sources = {info[i][1].name for i in which}
    if len(sources) > 1:
        o.cover("several source units")
        if len(which) < len(m.rows):
            o.nontrivial()
    if len(which) < len(m.rows):
        o.cover("not selected untouched")
    if not which:
        o.cover("nothing selected")
    if len(which) == len(m.rows):
        o.cover("whole frame")
    o.state(main, len(which), len(sources), use)

    # there and back
    if len(sources) == 1 and which and not (use and info[which[0]][1].gas not in ("CO2", "C")):
        u = info[which[0]][1]
        if len(which) < len(m.rows) and ("level" in kw or "year" in kw or "variable" in kw or not kw or "keep" in kw or "run" in kw or "scenario" in kw or True):
            back = dict(kw, unit=u.name)
        else:
            back = {"unit": u.name}
        h = o.returns("convert back", g.convert_unit, **back)
        exp2 = m.copy()
        tol2 = [[0.0] * len(m.times) for _ in m.rows]
        for r in exp2.rows:
            r["unit_context"] = None
        for i in which:
            tol2[i] = [0.0 if math.isnan(x) else 2 * ref.utol(x, u, u, target[1]) for x in m.vals[i]]
        scm.compare(o, scm.read(o, h), exp2, "converted there and back", order=True, atol=tol2)
        o.cover("there and back")
    elif which and main != "gas":
        # on to another unit
        other = rng.choice(ref.FAMILIES[main])
        h = o.returns("convert again", g.convert_unit, **dict(kw, unit=other.name))
        exp3, tol3 = got.copy(), [[0.0] * len(m.times) for _ in m.rows]
        for i in which:
            exp3.rows[i]["unit"] = other.name
            exp3.vals[i] = [ref.uconv(x, target[1], other) for x in got.vals[i]]
            tol3[i] = [0.0 if math.isnan(x) else ref.utol(x, target[1], other, target[1]) for x in got.vals[i]]
        if exp3.unique():
            scm.compare(o, scm.read(o, h), exp3, "converted again", order=True, atol=tol3)
            o.cover("converted before")


def contexts(rng, o):
    """the context of the last conversion is kept with each timeseries"""
    a, b = rng.sample(METRICS, 2)
    gas = rng.choice(["CH4", "N2O", "SF6"])
    rows = scm.metadata(rng, 3, units=["Mt {} / yr".format(gas)], extra=[])
    for i, r in enumerate(rows):
        r["scenario"] = "s%d" % i
    ts = scm.times(rng, n=3)
    m = scm.Model(rows, ts, scm.matrix(rng, 3, 3))
    f = m.build()
    g = o.returns("first", f.convert_unit, "Mt CO2 / yr", context=a, scenario="s0")
    h = o.returns("second", g.convert_unit, "Mt CO2 / yr", context=b, scenario="s1")
    exp, tol = m.copy(), [[0.0] * 3 for _ in range(3)]
    for i, c in ((0, a), (1, b), (2, None)):
        exp.rows[i]["unit_context"] = c
        if c:
            exp.rows[i]["unit"] = "Mt CO2 / yr"
            exp.vals[i] = [x * TABLE[gas][c] for x in m.vals[i]]
            tol[i] = [1e-9 * abs(x) for x in exp.vals[i]]
    scm.compare(o, scm.read(o, h), exp, "two contexts in one frame", order=True, atol=tol)
    k = o.returns("third", h.convert_unit, "Gt C / yr", context=b, scenario=["s0", "s1"])
    for i in (0, 1):
        exp.rows[i]["unit"], exp.rows[i]["unit_context"] = "Gt C / yr", b
        exp.vals[i] = [x * 12 / 44 / 1000 for x in exp.vals[i]]
        tol[i] = [1e-9 * abs(x) for x in exp.vals[i]]
    scm.compare(o, scm.read(o, k), exp, "context replaced", order=True, atol=tol)
    o.cover("context replaced")
    o.raises(DimensionalityError, "gas without context", f.convert_unit, "Mt CO2 / yr")
    o.cover("context needed")
    o.nontrivial()


def refused(rng, o):
    rows = scm.metadata(rng, 4, units=["K"], extra=[])
    us = ["K", "degC", "GtC/a", "W/m^2"]
    for r, u in zip(rows, us):
        r["unit"], r["scenario"] = u, "s" + u
    m = scm.Model(rows, scm.times(rng, n=3), scm.matrix(rng, 4, 3))
    f = m.build()
    for inplace in (False, True):
        o.raises(DimensionalityError, "mixed frame", f.convert_unit, rng.choice(["K", "degC", "W/m^2"]), inplace=inplace)
        scm.compare(o, scm.read(o, f), m, "after a refused conversion", order=True)
        o.cover("incompatible refused in place" if inplace else "incompatible refused")
        o.raises(UndefinedUnitError, "unknown unit", f.convert_unit, rng.choice(["nounit", "GtX/a"]), inplace=inplace, scenario="sK")
        scm.compare(o, scm.read(o, f), m, "after an unknown unit", order=True)
        o.cover("unknown unit refused")
    o.raises(ValueError, "unknown filter", f.convert_unit, "K", nothing="x")
    scm.compare(o, scm.read(o, f), m, "after an unknown filter", order=True)


FAMILIES = [Family("convert", convert, 260, 3500), Family("contexts", contexts, 20, 300), Family("refused", refused, 20, 200)]
FAMILIES += [
    Family("large convert", gen.large(convert), 17, 175),
]
