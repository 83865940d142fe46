import operator

import numpy as np

from mon import gen, ref
from mon.core import Family
from mon.pset import ParameterSet, errors, arr, ex_arg, name_arg, nvalues, type_arg
from mon.tsmodel import conv_tol

RULE = (
    "a case is a random parameter tree (depth up to 4, random branching) whose leaves have their own units and time axes, "
    "views of several inner nodes (other units, axes, extrapolations; taken before, between and after writes) and a random "
    "history of leaf writes through several leaf views; after every step every inner view and retained handle is compared with "
    "the sum over the leaves of the reference conversion; non-trivial: at least two leaves below a viewed node, and a leaf was "
    "rewritten after that node had been read"
)
COVER = [
    "scalar parent", "timeseries parent", "read while a leaf is empty", "rewrite after parent read", "retained handle of parent",
    "inner node below viewed node", "leaf in other unit", "leaf on other axis", "parent on other axis", "element write to leaf",
    "second view of parent on an earlier axis", "offset unit", "parent viewed before the leaf", "leaf locked and unlocked", "leaf without a value (NaN)", "series with NaN in a parent",
]
ASSUMPTIONS = ["reference conversions in mon/ref.py", "tolerances scale with the magnitudes involved (about 1e-9 relative)"]


def random_tree(rng, depth=4):
    """list of leaf paths below ('Root',) (and inner paths)"""
    leaves, inner = [], []

    def grow(path, d):
        if d == 0 or (len(path) > 1 and rng.random() < 0.45):
            leaves.append(path)
            return
        inner.append(path)
        for i in range(rng.choice([1, 2, 2, 3])):
            grow(path + (rng.choice(["A", "B", "C", "CO2", "Sector x"]) + str(i),), d - 1)

    grow((rng.choice(["Root", "Emissions"]),), rng.randint(1, depth))
    return leaves, inner


class Leaf:
    def __init__(self, path):
        self.path, self.d, self.peak, self.views = path, None, 0.0, []


def below(path, node):
    return path[: len(node)] == node


def scalar_tree(rng, o):
    p = ParameterSet()
    region = rng.choice([("World",), ("World", "X")])
    leaves, inner = random_tree(rng)
    units = ref.FAMILIES[rng.choice(list(ref.FAMILIES) + ["temperature"])]
    if any(u.offset for u in units):
        o.cover("offset unit")
    L = []
    for path in rng.sample(leaves, len(leaves)):
        l = Leaf(path)
        l.unit = rng.choice(units)
        l.views = [(o.returns("scalar({},{})".format(path, l.unit), p.scalar, name_arg(rng, path), l.unit.name, region=name_arg(rng, region)), l.unit)]
        L.append(l)
    parents = []

    def expect(node, u):
        tot, tol = 0.0, 0.0
        for l in L:
            if below(l.path, node):
                x, w = l.d
                tot += ref.uconv(x, w, u)
                tol += ref.utol(x, w, u, l.unit)
        return tot, tol

    def observe(lazy=True):
        p_skip = rng.choice([0, 0.3, 0.8]) if lazy else 0
        for node, u, v, seen in parents:
            if rng.random() < p_skip:
                continue
            o.events["read"] += 1
            if any(below(l.path, node) and l.d is None for l in L):
                o.raises(errors.ParameterEmptyError, "parent {} with empty leaf".format(node), lambda: v.value)
                o.cover("read while a leaf is empty")
                continue
            e, t = expect(node, u)
            o.close(v.value, e, "scalar parent {} in {} is not the sum of its leaves".format("|".join(node), u), rtol=1e-12, atol=t)
            seen.append(1)
            o.cover("scalar parent")

    for _ in range(gen.many(rng, rng.randint(6, 20))):
        k = rng.random()
        if k < 0.25 and len(parents) < 6:
            node, u = rng.choice(inner), rng.choice(units)
            if any(l.d is None for l in L):
                o.cover("parent viewed before the leaf")
            v = o.returns("scalar({},{})".format(node, u), p.scalar, name_arg(rng, node), u.name, region=name_arg(rng, region))
            parents.append((node, u, v, []))
            if any(below(i, node) and i != node for i in inner):
                o.cover("inner node below viewed node")
        elif k < 0.35:
            l, u = rng.choice(L), rng.choice(units)
            l.views.append((p.scalar(name_arg(rng, l.path), u.name, region=name_arg(rng, region)), u))
        else:
            empty = [l for l in L if l.d is None]
            l = rng.choice(empty) if empty and rng.random() < 0.6 else rng.choice(L)
            v, u = rng.choice(l.views)
            x = gen.number(rng)
            if rng.random() < 0.06:
                x = float("nan")
                o.cover("leaf without a value (NaN)")
            o.event("write", "{} = {!r} {}".format("|".join(l.path), x, u))
            v.value = x
            if l.d is not None and any(seen and below(l.path, node) for node, _, _, seen in parents):
                o.cover("rewrite after parent read")
                if any(sum(below(m.path, node) for m in L) > 1 and seen for node, _, _, seen in parents):
                    o.nontrivial()
            l.d = (float(x), u)
            if len({m.unit.name for m in L}) > 1:
                o.cover("leaf in other unit")
        observe()
        o.state(len(parents), sum(l.d is None for l in L), len(L))
    observe(False)


def timeseries_tree(rng, o):
    p = ParameterSet()
    region = rng.choice([("World",), ("World", "X")])
    leaves, inner = random_tree(rng, 3)
    kind = rng.choice(["point", "average"])
    units = ref.FAMILIES[rng.choice(list(ref.FAMILIES))]
    if any(u.offset for u in units):
        o.cover("offset unit")
    base = gen.axis(rng, n=rng.randint(8, 14), style=rng.choice(["annual", "irregular", "equal", "monthly", "mixed"]))
    L = []
    for path in rng.sample(leaves, len(leaves)):
        l = Leaf(path)
        l.unit = rng.choice(units)
        l.axis = list(base) if rng.random() < 0.4 else sorted({base[0], base[-1]} | set(gen.within(rng, base)))
        if len(l.axis) < 4:
            l.axis = list(base)
        o.cover("leaf on other axis", int(l.axis != base))
        l.ex = "none"
        l.view = o.returns(
            "timeseries({},{})".format(path, l.unit), p.timeseries, name_arg(rng, path), l.unit.name, gen.as_dt64(l.axis, rng.choice(["s", "ms"])),
            region=name_arg(rng, region), timeseries_type=type_arg(rng, kind), extrapolation=ex_arg(rng, rng.choice(["none", "constant", "linear"])),
        )
        l.handle = None
        l.locked = None
        L.append(l)
    parents = []

    def expect(node, u, axis, ex):
        tot, tol = np.zeros(nvalues(kind, axis)), 0.0
        for l in L:
            if below(l.path, node):
                x = ref.convert(kind, l.axis, l.d, axis, ex)
                tot = tot + np.array([ref.uconv(a, l.unit, u) for a in x])
                tol += conv_tol(kind, l.axis, [l.peak], axis, ex) * l.unit.scale / u.scale + ref.utol(l.peak, l.unit, u, l.unit)
        return tot, tol

    def observe(lazy=True):
        p_skip = rng.choice([0, 0.3, 0.8]) if lazy else 0  # several leaf writes between two reads
        for q in parents:
            node, u, axis, ex, v, handles, seen = q
            o.events["read"] += 1
            if any(below(l.path, node) and l.d is None for l in L):
                o.raises(errors.ParameterEmptyError, "parent {} with empty leaf".format(node), lambda: v.values)
                o.cover("read while a leaf is empty")
                continue
            if rng.random() < p_skip:
                continue
            e, t = expect(node, u, axis, ex)
            what = "parent {} in {} ({}): ".format("|".join(node), u, ex)
            order = [("h", h, sl) for h, sl in handles] + [("v", None, None)]
            rng.shuffle(order)
            for how, h, sl in order:
                if how == "v":
                    if handles and lazy and rng.random() < 0.4:
                        continue  # only handles are looked at
                    o.close(arr(v.values), e, what + "values are not the sum of the leaves", rtol=1e-11, atol=t)
                else:
                    x = e if sl is None else e[sl]
                    r = rng.randrange(4)
                    got = arr(h) if r == 0 else np.array(h + 0.0) if r == 1 else np.array([float(h[i]) for i in range(len(x))]) if r == 2 else np.array(h, dtype=float)
                    o.close(got, x, what + "retained handle is not the sum of the leaves", rtol=1e-11, atol=t)
                    o.cover("retained handle of parent")
            if len(handles) < 3 and (not handles or rng.random() < 0.5):
                h = v.values
                n = len(e)
                if rng.random() < 0.4:
                    a = rng.randrange(n)
                    sl = slice(a, rng.randint(a + 1, n))
                    handles.append((h[sl], sl))
                else:
                    handles.append((h, None))
            seen.append(1)
            o.cover("timeseries parent")

    for _ in range(gen.many(rng, rng.randint(6, 16))):
        k = rng.random()
        if k < 0.3 and len(parents) < 5:
            node, u = rng.choice(inner), rng.choice(units)
            r = rng.randrange(5)
            ex = rng.choice(["none", "constant", "linear"])
            if r == 0:
                axis = list(base)
            elif r == 1:
                axis = gen.refine(rng, base)
            elif r == 2:
                axis = gen.within(rng, base)
            elif r == 3:
                m = len(base) // 2
                axis = gen.within(rng, base[m:])
                parents.append(view(p, o, rng, node, u, axis, ex, kind, region))
                axis = gen.within(rng, base[: m + 1])
                o.cover("second view of parent on an earlier axis")
            else:
                axis, ex = gen.beyond(rng, base), rng.choice(["constant", "linear"])
            if len(axis) < 2:
                axis = list(base)
            if axis != base:
                o.cover("parent on other axis")
            if any(l.d is None for l in L):
                o.cover("parent viewed before the leaf")
            parents.append(view(p, o, rng, node, u, axis, ex, kind, region))
            if any(below(i, node) and i != node for i in inner):
                o.cover("inner node below viewed node")
        else:
            empty = [l for l in L if l.d is None]
            l = rng.choice(empty) if empty and rng.random() < 0.6 else rng.choice(L)
            n = nvalues(kind, l.axis)
            was = l.d
            r = rng.random()
            if was is not None and r < 0.35:
                j, x = rng.randrange(n), rng.uniform(-50, 50)
                o.event("write", "{}[{}] = {!r}".format("|".join(l.path), j, x))
                if l.handle is None or rng.random() < 0.5:
                    l.handle = l.view.values
                l.handle[j] = x
                l.d = list(l.d)
                l.d[j] = x
                o.cover("element write to leaf")
            elif was is not None and r < 0.5:
                x = rng.uniform(-3, 3)
                o.event("write", "{} *= {!r}".format("|".join(l.path), x))
                h = l.view.values
                h *= x
                l.d = [a * x for a in l.d]
            elif r < 0.6:
                # nothing of a locked write may be seen by the parent before unlock
                vals = gen.values(rng, n)
                o.event("write", "{} locked = {!r}".format("|".join(l.path), vals))
                l.view.lock()
                l.view.values = vals
                observe()
                l.view.unlock()
                l.d = vals
                o.cover("leaf locked and unlocked")
            elif r < 0.75:
                u = rng.choice(units)
                v2 = p.timeseries(name_arg(rng, l.path), u.name, gen.as_dt64(l.axis), region=region, timeseries_type=kind)
                vals = gen.values(rng, n)
                o.event("write", "{} = {!r} {} (second view)".format("|".join(l.path), vals, u))
                v2.values = np.array(vals)
                l.d = [float(ref.uconv(a, u, l.unit)) for a in vals]
                l.peak = max(l.peak, (abs(u.offset) + abs(l.unit.offset)) / l.unit.scale)
            else:
                vals = gen.values(rng, n)
                o.event("write", "{} = {!r}".format("|".join(l.path), vals))
                l.view.values = rng.choice([list, np.array])(vals)
                l.d = vals
            l.peak = max([l.peak] + [abs(a) for a in l.d])
            if was is not None and any(q[6] and below(l.path, q[0]) for q in parents):
                o.cover("rewrite after parent read")
                if any(sum(below(m.path, q[0]) for m in L) > 1 and q[6] for q in parents):
                    o.nontrivial()
            if len({m.unit.name for m in L}) > 1:
                o.cover("leaf in other unit")
        observe()
        o.state(len(parents), sum(l.d is None for l in L), len(L), kind)
    observe(False)


def view(p, o, rng, node, u, axis, ex, kind, region):
    v = o.returns(
        "timeseries({},{},{})".format(node, u, ex), p.timeseries, name_arg(rng, node), u.name, gen.as_dt64(axis, rng.choice(["s", "us"])),
        region=name_arg(rng, region), timeseries_type=type_arg(rng, kind), extrapolation=ex_arg(rng, ex),
    )
    return (node, u, axis, ex, v, [], [])


def with_gaps(rng, o):
    """a leaf without a value somewhere: the sum has none there"""
    p = ParameterSet()
    leaves, inner = random_tree(rng, 3)
    kind = rng.choice(["point", "average"])
    units = ref.FAMILIES[rng.choice(ref.LINEAR)]
    axis = gen.axis(rng, n=rng.randint(4, 9), style=rng.choice(["annual", "irregular", "monthly"]))
    n = nvalues(kind, axis)
    L = []
    for path in leaves:
        u = rng.choice(units)
        L.append((path, u, p.timeseries(path, u.name, gen.as_dt64(axis), timeseries_type=kind)))
    node, u = rng.choice(inner), rng.choice(units)
    ex = rng.choice(["none", "constant"])
    v = None
    data = {}
    for turn in range(rng.randint(1, 4)):
        for path, w, x in L if not data else rng.sample(L, rng.randint(1, len(L))):
            vals = [float(rng.randint(1, 99)) for _ in range(n)]
            for i in rng.sample(range(n), rng.choice([0, 0, 1, 1, 2])):
                vals[i] = float("nan")
            o.event("write", "{} {!r}", path, vals)
            x.values = vals
            data[path] = (vals, w)
        if v is None:
            v = p.timeseries(node, u.name, gen.as_dt64(axis), timeseries_type=kind, extrapolation=ex)
        exp = np.zeros(n)
        for path, (vals, w) in data.items():
            if below(path, node):
                exp = exp + np.array([ref.uconv(a, w, u) for a in vals])
        got = arr(v.values)
        gaps = np.isnan(exp)
        o.check(bool(np.all(np.isnan(got[gaps]))), "the sum of a parent has a value where one of its leaves has none", node=node, observed=got, expected=exp)
        if kind == "point" or not gaps.any():
            o.close(got, exp, "parent is not the sum of its leaves", rtol=1e-8, atol=1e-9)
        if gaps.any():
            o.cover("series with NaN in a parent")
            if len([1 for path in data if below(path, node)]) > 1:
                o.nontrivial()
        o.state(kind, n, int(gaps.sum()))


FAMILIES = [Family("with gaps", with_gaps, 300, 2000), Family("scalar tree", scalar_tree, 1200, 6000), Family("timeseries tree", timeseries_tree, 1500, 7000)]
FAMILIES += [
    Family("long scalar tree", gen.large(scalar_tree), 30, 200),
    Family("long timeseries tree", gen.large(timeseries_tree), 37, 233),
]
