import functools

import numpy as np

from openscm.core.units import DimensionalityError, UnitConverter

from mon import gen, species
from mon.core import Family

RULE = (
    "a case takes species by species every spelling (symbol, upper case, alias, joint with g or t under any SI prefix) in bare, mass, per-time and mass-per-time "
    "form and checks the factor to another spelling and the refusal of other species and plain masses; non-trivial: spellings differ"
)
SYMBOLS = sorted(species.FAMILIES)
COVER = ["species " + s for s in SYMBOLS] + [
    "upper case", "alias", "joint t", "joint g", "prefixed joint", "bare", "mass", "mass per time", "per time", "C and CO2", "N and N2O", "N and N2ON", "N and NH3",
    "S and SO2", "SOx", "NMVOC", "species mixed refused", "plain mass refused", "close names refused", "per area",
]
ASSUMPTIONS = ["the list of species and equivalences is the documented one at the pinned commit (mon/species.py)"]
TECHNIQUE = "conversion events of all species and spellings checked online against an independent species table; refusals monitored"
PARTS = 8


def form(rng, o, name, amount, is_joint, kind=None):
    """-> (unit text, scale, kind)"""
    kind = kind or rng.choice(["bare", "mass", "mass", "mass per time", "mass per time", "per time", "per area"])
    t = rng.choice(sorted(species.TIME))
    if kind in ("bare", "per time"):
        text, scale = name, amount
    else:
        m = rng.choice(sorted(species.MASS))
        scale = amount * species.MASS[m]
        if is_joint and rng.random() < 0.6:
            text = m + name
            o.cover("joint " + m[-1])
            if len(m) > 1:
                o.cover("prefixed joint")
        else:
            text = rng.choice(["{} {}", "{}*{}", "{} * {}"]).format(m, name)
            if rng.random() < 0.1:
                text = "{} {}".format(name, m)
    if kind in ("mass per time", "per time"):
        text += rng.choice(["/{}", " / {}", " per {}"]).format(t)
        scale /= species.TIME[t]
    if kind == "per area":
        text += "/m^2/" + t
        scale /= species.TIME[t]
    o.cover(kind)
    return text, scale, kind


def agree(o, a, sa, b, sb, msg, rng):
    uc = o.returns("UnitConverter({!r}, {!r})".format(a, b), UnitConverter, a, b)
    v = gen.values(rng, 3, "normal")
    o.close(uc.convert_from(np.array(v)), [x * sa / sb for x in v], msg, rtol=1e-9, atol=1e-11 * sa / sb, source=a, target=b)
    o.close(uc.convert_to(np.array(v)), [x * sb / sa for x in v], msg + " (backwards)", rtol=1e-9, atol=1e-11 * sb / sa, source=a, target=b)
    o.state(a, b)


NAMED = [("C", "CO2"), ("N", "N2O"), ("N", "N2ON"), ("N", "NH3"), ("S", "SO2")]


def every(part, rng, o):
    """all species of one part"""
    for fam in SYMBOLS[part::PARTS]:
        names = species.spellings(fam)
        joints = species.joint(fam)
        o.cover("species " + fam)
        for name, amount in names.items():
            if name in species.ALIASES:
                o.cover("alias")
            elif name == name.upper() and name not in species.FAMILIES[fam]:
                o.cover("upper case")
            for kind in ("mass", rng.choice(["bare", "mass per time", "per time"])):
                other = rng.choice(sorted(names))
                a, sa, k = form(rng, o, name, amount, name in joints, kind)
                b, sb, _ = form(rng, o, other, names[other], other in joints, k)
                agree(o, a, sa, b, sb, "spellings of a species", rng)
                for x, y in NAMED:
                    if {name, other} == {x, y}:
                        o.cover("{} and {}".format(x, y))
                if "SOx" in (name, other):
                    o.cover("SOx")
                if "NMVOC" in (name, other):
                    o.cover("NMVOC")
        if len(names) > 1:
            o.nontrivial()
        # joint units agree with their parts and the upper case ones, in every prefix
        for name in joints:
            for m in rng.sample(sorted(species.MASS), 3):
                agree(o, m + name, species.MASS[m], "{} {}".format(rng.choice(["g", "t", "kg"]), name) if False else "g " + name, 1.0, "joint unit", rng)


def equivalences(rng, o):
    for x, y in NAMED + [("S", "SOx"), ("SO2", "SOx"), ("VOC", "NMVOC"), ("CO2", "carbon"), ("N2O", "NH3"), ("N2O", "N2ON")]:
        fam = next(f for f in species.FAMILIES if x in species.FAMILIES[f])
        names = species.FAMILIES[fam]
        a, sa, k = form(rng, o, x, names[x], x in species.joint(fam))
        b, sb, _ = form(rng, o, y, names[y], y in species.joint(fam), k)
        agree(o, a, sa, b, sb, "documented equivalence", rng)
        if (x, y) in NAMED:
            o.cover("{} and {}".format(x, y))
    o.nontrivial()


CLOSE = [
    ("CO", "CO2"), ("CO", "C"), ("NOx", "N"), ("NOx", "N2O"), ("NOx", "NH3"), ("CH4", "C"), ("CH4", "CO2"), ("BC", "C"), ("OC", "C"), ("OC", "BC"), ("SF6", "S"),
    ("HFC134", "HFC134a"), ("HFC143", "HFC143a"), ("HFC152", "HFC152a"), ("CF4", "C2F6"), ("HFC236fa", "HFE236fa"), ("HFC227ea", "HFE227ea"), ("VOC", "C"),
    ("VOC", "CH4"), ("CFC11", "CFC113"), ("HFC245ca", "HFC245fa"), ("HCFC123", "HFC23"), ("CH3Cl", "CH3CCl3"), ("CCl4", "CHCl3"), ("SO2", "C"), ("NF3", "N"),
    ("SF5CF3", "SF6"), ("N2O", "CO2"), ("Halon1201", "Halon1202"), ("cC4F8", "C4F10"), ("C3F8", "cC3F6"), ("HFC125", "HFE125"), ("HFC134", "HFE134"),
    ("HCFC22", "HCFC225ca"), ("HCFC225ca", "HCFC225cb"), ("HFC4310mee", "HFE4310pccc124"), ("HFC4310", "HFC41"),
]


def find(name):
    return next(f for f in species.FAMILIES if name in species.FAMILIES[f])


def refused(rng, o):
    for _ in range(12):
        if rng.random() < 0.5:
            x, y = rng.choice(CLOSE)
            fx, fy = find(x), find(y)
            o.cover("close names refused")
            o.nontrivial()
        else:
            fx, fy = rng.sample(SYMBOLS, 2)
            x, y = rng.choice(sorted(species.spellings(fx))), rng.choice(sorted(species.spellings(fy)))
        a, _, k = form(rng, o, x, 1.0, x in species.joint(fx))
        b, _, _ = form(rng, o, y, 1.0, y in species.joint(fy), k)
        if rng.random() < 0.5:
            a, b = b, a
        o.raises(DimensionalityError, "UnitConverter({!r}, {!r})".format(a, b), UnitConverter, a, b)
        o.cover("species mixed refused")
        o.state("refused", a, b)
        # a species is not a plain mass
        c, _, _ = form(rng, o, x, 1.0, x in species.joint(fx), "mass")
        m = rng.choice(sorted(species.MASS))
        for p, q in [(c, m), (m, c), (x, m), (x, "dimensionless")]:
            o.raises(DimensionalityError, "UnitConverter({!r}, {!r})".format(p, q), UnitConverter, p, q)
        o.cover("plain mass refused")


FAMILIES = [Family("species {}/{}".format(p + 1, PARTS), functools.partial(every, p), 1, 40) for p in range(PARTS)] + [
    Family("equivalences", equivalences, 30, 400),
    Family("refused", refused, 60, 1000),
]
