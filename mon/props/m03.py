import gc

import numpy as np

from openscm import OpenSCM
from openscm.core.parameterset import ParameterSet

from mon import dice, gen, ref
from mon.core import Family
from mon.dice import OUTPUTS, UNITS
from mon.props.m01 import read, same, seconds
from mon.tsmodel import conv_tol

RULE = (
    "representation: one meaning of the inputs (a configuration of DICE) supplied in two representations - other units, finer time axes with the same averages, other time resolutions, emissions as the "
    "sum of sub-sectors at any depth - outputs must agree, also when read in other units and on other axes, and the inputs must read the same before and after; "
    "interleaving: 2 to 4 instances (some sharing the input set) driven by a random interleaving of reset/step/run/read/delete, outputs must be bitwise those of an instance that ran alone; "
    "non-trivial: emissions differ in representation, or at least 3 switches between instances"
)
COVER = [
    "sub-sectors", "nested sub-sectors", "sub-sectors in different units", "sub-sectors on different axes", "finer axis", "other resolution", "other emission unit", "other parameter unit", "negative sub-sector",
    "inputs unchanged", "sub-sector inputs unchanged", "output in other unit", "output on other axis", "output within", "output beyond (constant)", "output beyond (linear)", "average output on other axis", "run twice",
    "shared inputs", "separate inputs", "instance deleted meanwhile", "run between steps of another", "steps interleaved", "equal to running alone", "input changed for one instance only", "three or more instances", "output into given set",
    "input handles are not aliased by outputs", "parameter is zero",
]
ASSUMPTIONS = ["equal meaning of emissions: equal averages over the model's time steps (and of the emissions' own periods)", "an output set belongs to one instance", "regional sub-division is not an equivalent representation (sums over regions are not part of the interface)"]
TECHNIQUE = "metamorphic monitor over equivalent input representations, and non-interference monitor over recorded interleavings of several instances"


def split(rng, total, k):
    """k series which sum up to total"""
    size = max(map(abs, total)) or 1.0
    parts = [[rng.uniform(-0.5, 1.0) * size for _ in total] if rng.random() < 0.7 else [0.3 * x for x in total] for _ in range(k - 1)]
    return parts + [[t - sum(p[i] for p in parts) for i, t in enumerate(total)]]


def finer(rng, axis, vals):
    """an axis which contains all of axis, and values with the same averages over axis"""
    fine = gen.refine(rng, axis, 2)
    out = []
    for a, b, v in zip(axis, axis[1:], vals):
        inner = [t for t in fine if a <= t <= b]
        w = [y - x for x, y in zip(inner, inner[1:])]
        d = [rng.uniform(-1, 1) * (abs(v) + 1) for _ in w] if len(w) > 1 else [0.0]
        m = sum(x * y for x, y in zip(d, w)) / (b - a)
        out += [v + x - m for x in d]
    return fine, out


PATHS = [("Fossil",), ("AFOLU",), ("Other", "Land"), ("Other", "Sea", "Ships"), ("Fossil Fuel", "Coal"), ("Fossil Fuel", "Gas")]


def write_emissions(rng, o, p, c):
    """the emissions of c in some representation -> list of (view, values written)"""
    axis, vals = c.axis, c.emissions
    written = []
    k = rng.choice([1, 1, 2, 3, 4])
    paths = [()] if k == 1 and rng.random() < 0.7 else rng.sample(PATHS, k)
    if paths != [()]:
        o.cover("sub-sectors")
        if any(len(x) > 1 for x in paths):
            o.cover("nested sub-sectors")
    units, axes, total = set(), set(), [0.0] * c.n
    for path, part in zip(paths, split(rng, vals, len(paths))):
        a, v = axis, part
        if rng.random() < 0.5:
            a, v = finer(rng, axis, part)
            if len(a) > len(axis):
                o.cover("finer axis")
        u = rng.choice(dice.EMISSIONS)
        res = rng.choice(gen.RESOLUTIONS[:3] + ["D", "m", "ns"])
        if res in ("D", "m") and any(t % {"D": 86400, "m": 60}[res] for t in a) or res == "ns" and not (gen.year_start(1680) < a[0] and a[-1] < gen.year_start(2260)):
            res = "s"
        if res != "s":
            o.cover("other resolution")
        if u.name != "GtC/a":
            o.cover("other emission unit")
        if paths != [()] and min(part) < 0:
            o.cover("negative sub-sector")
        units.add(u.name)
        axes.add(tuple(a))
        w = p.timeseries(("Emissions", "CO2") + path, u.name, gen.as_dt64(a, res), timeseries_type="average")
        x = [ref.uconv(y, dice.GTC, u) for y in v]
        w.values = x
        written.append((path, w, list(w.values), u, gen.as_dt64(a)))
        e = ref.convert("average", a, v, c.grid(1), "none")
        total = [x + y for x, y in zip(total, e)]
        if a != axis or u.name != "GtC/a" or path:
            o.nontrivial()
    if len(paths) > 1 and len(units) > 1:
        o.cover("sub-sectors in different units")
    if len(axes) > 1:
        o.cover("sub-sectors on different axes")
    return written, total


def representation(rng, o):
    c = dice.config(rng, wild=rng.random() < 0.4, max_n=20)
    q, out = ParameterSet(), rng.choice([None, ParameterSet()])
    written = None
    if rng.random() < 0.5:
        written, total = write_emissions(rng, o, q, c)
    dice.supply(rng, q, c, emissions=False)
    if not written:
        written, total = write_emissions(rng, o, q, c)
    # base: the averages over the model's own steps, in the model's own units
    base = c.copy()
    base.emissions, base.axis = total, c.grid(1)
    p = ParameterSet()
    dice.supply(rng, p, base, plain=True)
    alone = OpenSCM("DICE", p)
    o.returns("run base", alone.run)
    expect = read(alone, c)

    scalars = {}
    for name in c.given:
        w = q.scalar(dice.full_name(name), q.info(dice.full_name(name)).unit)
        scalars[name] = (w, w.value)
        if w.value == 0:
            o.cover("parameter is zero")
        if w.unit != dice.DEFAULTS[name][1]:
            o.cover("other parameter unit")
    generics = {n: q.generic(n).value for n in ["Start Time", "Stop Time"] + [("DICE", x) for x in sorted(c.also)]}
    s = OpenSCM("DICE", q, out)
    if out is not None:
        o.check(s.output is out, "the given output set is not used")
        o.cover("output into given set")
    o.check(s.parameters is q, "the given input set is not used")
    for again in range(rng.choice([1, 1, 2])):
        if again:
            o.cover("run twice")
        o.returns("run", s.run)
        got = read(s, c)
        size = max(max(map(abs, w[2])) * w[3].scale / dice.GTC.scale for w in written) * c.period / dice.YEAR * c.n
        # errors of splitting and of unit conversions, through the carbon pools
        big = {k: float(np.max(np.abs(v))) for k, v in expect.items()}
        for k in expect:
            atol = 1e-7 * big[k] + 1e-9 + (1e-8 * size if k in ("mat", "mu", "ml") else 1e-8 * size * (1 + big[k]) / max(1.0, float(np.min(expect["mat"]))))
            o.close(got[k], expect[k], "same inputs in another representation, different outputs: " + k, rtol=0, atol=atol, given=c.given)
        # inputs
        for path, w, before, u, times in written:
            now = list(w.values)
            o.eq(now, before, "run() changed the emissions {}".format("|".join(path)))
            fresh = list(q.timeseries(("Emissions", "CO2") + path, u.name, times, timeseries_type="average").values)
            o.close(fresh, before, "run() changed the stored emissions", rtol=1e-9, atol=1e-9 * max(map(abs, before)) + 1e-14)
            o.cover("sub-sector inputs unchanged" if path else "inputs unchanged")
        for name, (w, before) in scalars.items():
            o.eq(w.value, before, "run() changed the parameter " + name)
        for name, before in generics.items():
            o.eq(q.generic(name).value, before, "run() changed {}".format(name))
    convert_outputs(rng, o, s, c, got)
    # writing into outputs must not reach inputs
    v = s.output.timeseries(OUTPUTS["mat"][0], "GtC", gen.as_dt64(c.grid()), timeseries_type="point")
    v.values = np.full(c.n, 1.5)
    for path, w, before, u, times in written:
        o.eq(list(w.values), before, "writing the outputs changed the emissions")
    for name, (w, before) in scalars.items():
        o.eq(w.value, before, "writing the outputs changed the parameter " + name)
    o.cover("input handles are not aliased by outputs")
    o.state(len(written), c.n)


def convert_outputs(rng, o, s, c, got):
    for k in rng.sample(sorted(OUTPUTS), 3):
        name, unit, kind = OUTPUTS[k]
        u = rng.choice(UNITS[unit])
        src = c.grid(1) if kind == "average" else c.grid()
        if len(src) < 3 or (kind == "average" and len(src) < 4):
            continue
        role = rng.choice(["same", "within", "refine", "beyond"])
        ex = rng.choice(["none", "constant", "linear"])
        if role == "beyond":
            ex = rng.choice(["constant", "linear"])
            axis = gen.beyond(rng, src)
            if axis[1] < src[0]:
                continue
        elif src[-1] - src[0] < 40:
            continue
        else:
            axis = list(src) if role == "same" else gen.within(rng, src) if role == "within" else gen.refine(rng, src)
        if len(axis) < 4:
            continue
        w = o.returns("read {} in {} {} {}".format(k, u, role, ex), s.output.timeseries, name, u.name, gen.as_dt64(axis, rng.choice(["s", "ms"])), timeseries_type=kind, extrapolation=ex)
        vals = [float(x) for x in got[k]]
        exp = [ref.uconv(x, UNITS[unit][0], u) for x in ref.convert(kind, src, vals, axis, ex)]
        tol = (conv_tol(kind, src, vals, axis, ex) + 1e-9 * max(map(abs, vals))) / u.scale
        o.close(w.values, exp, "output {} read in {} on another axis ({}, {})".format(k, u, role, ex), rtol=1e-9, atol=tol)
        if u.name != unit:
            o.cover("output in other unit")
        if role != "same":
            o.cover("output on other axis")
            o.cover({"within": "output within", "refine": "output on other axis", "beyond": "output beyond ({})".format(ex)}[role])
            if kind == "average":
                o.cover("average output on other axis")


def interleaving(rng, o):
    k = rng.choice([2, 2, 3, 4])
    if k >= 3:
        o.cover("three or more instances")
    insts = []
    for i in range(k):
        if insts and rng.random() < 0.4:
            j = rng.choice(insts)
            c, p = j["c"], j["p"]
            j["shared"] = True
            o.cover("shared inputs")
            sharing = True
        else:
            c = dice.config(rng, wild=False, max_n=10)
            p = ParameterSet()
            state = rng.getstate()
            dice.supply(rng, p, c)
            twin = type(rng)()
            twin.setstate(state)
            q = ParameterSet()
            dice.supply(twin, q, c)
            solo = OpenSCM("DICE", q)
            solo.run()
            full = read(solo, c)
            del solo
            o.cover("separate inputs")
            sharing = False
        insts.append({"c": c, "p": p, "full": j["full"] if sharing else full, "s": OpenSCM("DICE", p), "at": None, "done": False, "shared": sharing, "q": None if sharing else q, "twin": None if sharing else twin})
    switches, last = 0, None
    for _ in range(gen.many(rng, rng.randint(8, 40))):
        if not insts:
            break
        d = rng.choice(insts)
        c, s = d["c"], d["s"]
        if last is not None and last is not d:
            switches += 1
            if last["at"]:
                o.cover("steps interleaved")
        last = d
        kind = rng.choice(["step", "step", "step", "step", "run", "reset", "finish", "delete", "change"])
        if kind == "run":
            if any(x is not d and x["at"] for x in insts):
                o.cover("run between steps of another")
            o.returns("run", s.run)
            d["at"] = c.n - 1
        elif kind == "reset" or d["at"] is None:
            o.returns("reset", s.reset_stepping)
            d["at"] = 0
        elif kind in ("step", "finish"):
            for _ in range(c.n - 1 - d["at"] if kind == "finish" else min(1, c.n - 1 - d["at"])):
                now = s.step()
                d["at"] += 1
                o.eq(seconds(now), c.start + d["at"] * c.period, "time of an instance among others")
        elif kind == "delete" and len(insts) > 2 and rng.random() < 0.5:
            insts = [x for x in insts if x is not d]
            last = None
            del d, s
            gc.collect()
            o.cover("instance deleted meanwhile")
            continue
        elif kind == "change" and not d["shared"]:
            # change one instance's own parameter: only that instance reacts
            name = rng.choice(sorted(dice.DEFAULTS))
            v = dice.DEFAULTS[name][0] * rng.uniform(0.7, 1.3)
            st = rng.getstate()
            dice.set_param(rng, d["p"], name, v)
            d["twin"].setstate(st)
            dice.set_param(d["twin"], d["q"], name, v)
            solo = OpenSCM("DICE", d["q"])
            solo.run()
            d["full"] = read(solo, c)
            d["at"] = None
            o.cover("input changed for one instance only")
            continue
        for x in insts:  # everything everyone has computed so far
            if x["at"] is None:
                continue
            if x["at"] == x["c"].n - 1:
                same(o, read(x["s"], x["c"]), x["full"], "instance among others and alone")
                o.cover("equal to running alone")
            elif x is d or rng.random() < 0.3:
                got = read(x["s"], x["c"])
                tol = dice.tolerances({k: list(v) for k, v in x["full"].items()}, x["c"])
                for k in got:
                    o.close(got[k][: x["at"] + 1], x["full"][k][: x["at"] + 1], "steps of an instance among others and alone: " + k, rtol=0, atol=tol[k])
    if switches >= 3:
        o.nontrivial()
    o.state(k, switches)


FAMILIES = [Family("representation", representation, 300, 5000), Family("interleaving", interleaving, 200, 3500)]
FAMILIES += [
    Family("long interleaving", gen.large(interleaving), 6, 116),
]
