import random

import numpy as np

from mon import gen, ref
from mon.core import Family
from mon.pset import ParameterSet, errors, name_arg

RULE = (
    "a case is a random history of view creations (units of one dimension, offset units included), writes and reads of "
    "one or two scalar parameters, compared after every step with a register model; non-trivial: at least two views with "
    "different units and at least two writes through different views were read back through another view"
)
COVER = ["read through another unit", "offset unit", "empty read", "view created after write", "write through second view", "ensure", "not a number", "infinite"]
ASSUMPTIONS = ["physical unit definitions in mon/ref.py", "relative tolerance 1e-9 of the magnitudes involved"]


class Reg:
    """register model of one scalar parameter"""

    def __init__(self, pset, path, region, family):
        self.pset, self.path, self.region = pset, path, region
        self.units = ref.FAMILIES[family]
        self.views = []
        self.stored = None
        self.last = None  # (value, unit, index of view)
        self.version = None
        self.reads_across = 0

    def kw(self, rng):
        return {} if self.region == ("World",) and rng.random() < 0.5 else {"region": name_arg(rng, self.region)}

    def new_view(self, rng, o):
        u = rng.choice(self.units)
        v = o.returns("scalar({},{})".format("|".join(self.path), u), self.pset.scalar, name_arg(rng, self.path), u.name, **self.kw(rng))
        if self.stored is None:
            self.stored = u
        self.views.append((v, u))
        if u.offset:
            o.cover("offset unit")
        if self.last is not None:
            o.cover("view created after write")
        o.check(v.unit == u.name, "view reports another unit", unit=v.unit, requested=u.name)

    def write(self, rng, o):
        i = rng.randrange(len(self.views))
        v, u = self.views[i]
        x = gen.number(rng)
        before = v.version
        o.event("write", "{} view{} = {!r} {}".format("|".join(self.path), i, x, u))

        def f():
            v.value = x

        o.returns("write", f)
        if self.last is not None and self.last[2] != i:
            o.cover("write through second view")
        self.last = (float(x), u, i)
        o.check(v.version > before, "version did not grow on a write", before=before, after=v.version)
        self.version = v.version

    def observe(self, o, rng=None):
        # with rng, only some of the views are looked at: looking refreshes what a view remembers
        p_skip = rng.choice([0, 0.4, 0.8, 1]) if rng else 0
        for i, (v, u) in enumerate(self.views):
            if rng and rng.random() < p_skip:
                continue
            if self.last is None:
                o.raises(errors.ParameterEmptyError, "read empty", lambda: v.value)
                o.cover("empty read")
                o.check(v.empty is True, "empty parameter does not report empty")
                o.raises(errors.ParameterEmptyError, "ensure on empty", v.ensure)
                continue
            x, w, j = self.last
            got = v.value
            exp = ref.uconv(x, w, u)
            o.events["read"] += 1
            o.close(got, exp, "{}: view{} ({}) does not read the last write {} {} (view{})".format("|".join(self.path), i, u, x, w, j), rtol=0, atol=ref.utol(x, w, u, self.stored))
            o.check(not v.empty, "written parameter reports empty")
            v.ensure()
            o.cover("ensure")
            o.check(v.version == self.version, "version differs between views or changed without a write", v=v.version, expected=self.version)
            if i != j and u.name != w.name:
                o.cover("read through another unit")
                self.reads_across += 1
        o.state(len(self.views), self.last is None, self.last and self.last[2])


def history(rng, o):
    p = ParameterSet()
    regs = []
    fam = rng.choice(list(ref.FAMILIES) + ["temperature"] * 3)
    for k in range(rng.choice([1, 1, 2])):
        path = rng.choice([("Sensitivity",), ("A", "B"), ("Pool", "CO2", "Ocean")])
        path = path[:-1] + (path[-1] + str(k),)
        regs.append(Reg(p, path, rng.choice([("World",), ("World", "Sub")]), fam if k == 0 else rng.choice(list(ref.FAMILIES))))
    for r in regs:
        r.new_view(rng, o)
        r.observe(o)
    written = 0
    for _ in range(gen.many(rng, rng.randint(6, 22))):
        r = rng.choice(regs)
        k = rng.random()
        if k < 0.35 and len(r.views) < 6:
            r.new_view(rng, o)
        elif k < 0.8 and (written or rng.random() < 0.5):
            r.write(rng, o)
            written += 1
        for q in regs:
            q.observe(o, rng)
    for q in regs:
        q.observe(o)
    if any(len({u.name for _, u in r.views}) > 1 and r.reads_across > 1 for r in regs):
        o.nontrivial()


def info_object(rng, o):
    """parameter information obtained separately follows the parameter"""
    p = ParameterSet()
    fam = rng.choice(list(ref.FAMILIES))
    r = Reg(p, ("X", "Y"), ("World",), fam)
    r.new_view(rng, o)
    info = p.info(name_arg(rng, r.path))
    o.check(info.empty, "info reports an unwritten parameter as not empty")
    o.raises(errors.ParameterEmptyError, "info.ensure", info.ensure)
    for _ in range(rng.randint(2, 6)):
        if rng.random() < 0.4:
            r.new_view(rng, o)
        v0 = info.version
        r.write(rng, o)
        o.check(info.version > v0, "info.version did not grow", before=v0, after=info.version)
        o.check(not info.empty, "info reports a written parameter as empty")
        info.ensure()
        o.check(info.unit == r.stored.name, "info reports another unit than the first view's", unit=info.unit)
        r.observe(o)
        again = p.info(name_arg(rng, r.path))
        o.check(again.version == info.version and again.empty == info.empty, "two infos of one parameter differ")
    if r.reads_across:
        o.nontrivial()


def special(rng, o):
    """values which are no finite numbers are values: they are read back, and the parameter is not empty"""
    p = ParameterSet()
    r = Reg(p, rng.choice([("X",), ("X", "Y")]), rng.choice([("World",), ("World", "Sub")]), rng.choice(list(ref.FAMILIES)))
    for _ in range(rng.randint(1, 4)):
        r.new_view(rng, o)
    for _ in range(rng.randint(1, 6)):
        v, u = rng.choice(r.views)
        x = rng.choice([float("nan"), float("nan"), np.float64("nan"), float("inf"), float("-inf"), 0.0, -0.0, gen.number(rng)])
        before = v.version
        o.event("write", "{!r} {}", x, u)

        def f():
            v.value = x

        o.returns("write", f)
        o.check(v.version > before, "version did not grow on a write", before=before, after=v.version)
        if rng.random() < 0.3:
            r.new_view(rng, o)
        info = p.info(name_arg(rng, r.path))
        for w, uw in r.views:
            got = o.returns("read", lambda: w.value)
            o.events["read"] += 1
            o.check(w.empty is False, "a parameter which was written to is empty", value=x)
            o.returns("ensure", w.ensure)
            if x != x:
                o.cover("not a number")
                o.check(got != got, "NaN was written, something else is read", observed=got, unit=uw)
            elif np.isinf(x):
                o.cover("infinite")
                o.check(got == x, "an infinite value was written, something else is read", observed=got, expected=x, unit=uw)
            else:
                o.close(got, ref.uconv(float(x), u, uw), "value written after other ones", rtol=0, atol=ref.utol(float(x), u, uw, r.stored))
        if r.region == ("World",):
            o.check(info.empty is False, "info reports a written parameter as empty", value=x)
            o.returns("info.ensure", info.ensure)
        o.state(len(r.views), repr(x) if x != x or np.isinf(x) else 0)
    if len(r.views) > 1:
        o.nontrivial()


FAMILIES = [Family("history", history, 2800, 12000), Family("special", special, 500, 3000), Family("info", info_object, 800, 3000)]
FAMILIES += [
    Family("long history", gen.large(history), 70, 400),
]
