import numpy as np

from mon import gen, ref
from mon.core import Family
from mon.pset import ParameterSet, ParameterType, errors, name_arg, nvalues, ex_arg, type_arg

RULE = (
    "a case is a history of valid view requests and writes applied to two ParameterSets, with requests and writes that must be "
    "refused applied to the first one only; after every refused step everything observable through all views (values, emptiness, "
    "version, unit) must be bit-identical to before it and, after every step, to the second set; non-trivial: at least two refused "
    "steps of different kinds followed by a valid write"
)
COVER = [
    "wrong length", "strings", "None in values", "not a sequence", "element not numeric", "index out of range", "slice of wrong length",
    "in-place op of wrong shape", "in-place op with non-number", "unmappable axis: full write", "unmappable axis: element write",
    "unmappable axis: in-place", "short series", "scalar not numeric", "undefined unit", "incompatible unit", "too few time points",
    "refused write to empty", "refused write to written", "refused while locked", "refused request of a new name", "refused request of a known name",
    "refused unlock", "valid write after refusal", "parent observed", "mask of wrong count", "no overlap of time points",
    "generic of a parent", "other type than its leaves", "undefined unit of a parent", "incompatible unit of a parent", "too few time points of a parent",
    "child added below a refused parent", "refused new child",
]
ASSUMPTIONS = ["a refused request of a new name, other than for an undefined unit, may leave a parameter of that name and type not fixed, without a view"]

BASE = [gen.year_start(2000 + i) for i in range(8)]


def axis_of(role):
    if role == "short":
        return BASE[:2]
    if role == "inner":
        return BASE[2:7]
    return BASE


class World:
    """one ParameterSet with the views made so far (same order in both worlds)"""

    def __init__(self):
        self.p = ParameterSet()
        self.views = []

    def make(self, spec):
        kind, path, unit, role, ex = spec
        if kind == "scalar":
            return self.p.scalar(path, unit)
        return self.p.timeseries(path, unit, gen.as_dt64(axis_of(role)), timeseries_type=kind, extrapolation=ex)

    def snapshot(self, names):
        out = []
        for spec, v in self.views:
            try:
                x = v.value if spec[0] == "scalar" else tuple(float(a) for a in v.values)
            except (errors.ParameterEmptyError, errors.InsufficientDataError) as e:
                x = type(e).__name__
            out.append((x, v.empty, v.version, v.unit, v.parameter_type))
        for n in names:
            i = self.p.info(n)
            out.append(None if i is None or i.parameter_type is None else (i.empty, i.version, i.unit, i.parameter_type))
        return out


NAMES = ["S", "Group|s", "T", "Group T|a", "Group T|b", "Group T", "U"]
UNITS = {"scalar": ["kg", "g", "t"], "point": ["K", "degC", "mK"], "average": ["GtC/a", "MtC/a", "kgC/d"]}
BAD = {"scalar": ["m", "K"], "point": ["kg", "m/s"], "average": ["GtC", "W/m^2"]}


def history(rng, o):
    a, b = World(), World()
    kind_of = {n: "scalar" if n in ("S", "Group|s") else k for n, k in zip(NAMES, [None] * 7) for k in [None]}
    tkind = rng.choice(["point", "average"])
    ukind = rng.choice(["point", "average"])
    kind_of.update({"S": "scalar", "Group|s": "scalar", "T": tkind, "Group T|a": tkind, "Group T|b": tkind, "Group T": tkind, "U": ukind})
    full = {}  # name -> index of a view with the full axis (the first)
    written = set()
    pending_free = True
    kinds_refused = set()

    def refused(label, f, *args):
        # looking refreshes what views remember, so sometimes nobody looks before the refused step or after it
        before = a.snapshot(NAMES) if rng.random() < 0.6 else None
        o.cover(label)
        o.event("refuse", label)
        o.checks += 1
        try:
            f(*args)
        except Exception as e:
            o.event("raise", "{} -> {}".format(label, type(e).__name__))
        else:
            o.fail("{} was not refused".format(label))
        if before is not None:
            compare(a.snapshot(NAMES), before, "refused step ({}) changed something".format(label))
        kinds_refused.add(label)

    def compare(x, y, msg):
        o.checks += 1
        for i, (p, q) in enumerate(zip(x, y)):
            if repr(p) != repr(q):
                what = a.views[i][0] if i < len(a.views) else NAMES[i - len(a.views)]
                o.fail(msg, what=what, observed=p, expected=q)
        o.state(repr([e[1:] if e else e for e in x])[:400])

    def request(spec):
        o.event("request", repr(spec))
        va = o.returns("request {}".format(spec), a.make, spec)
        vb = b.make(spec)
        a.views.append((spec, va))
        b.views.append((spec, vb))

    def bad_request(name):
        k = kind_of[name]
        known = name in full
        ch = ["undefined unit"]
        if known:
            ch.append("incompatible unit")
        if k != "scalar":
            ch.append("too few time points")
            if known and name != "Group T":
                ch.append("no overlap of time points")
        label = rng.choice(ch)
        unit = rng.choice(UNITS[k])
        o.cover("refused request of a known name" if known else "refused request of a new name")
        if label == "undefined unit":
            unit = rng.choice(["nosuchunit", "kg/nosuch", "GtC/yearr"])
        elif label == "incompatible unit":
            unit = rng.choice(BAD[k])
        if k == "scalar":
            refused(label, a.p.scalar, name, unit)
        else:
            ax = gen.as_dt64(axis_of("same"))
            if label == "too few time points":
                ax = ax[:0]
            elif label.startswith("no overlap"):
                ax = ax - np.timedelta64(100 * 365, "D")
            refused(label, lambda: a.p.timeseries(name, unit, ax, timeseries_type=k, extrapolation=rng.choice(["none", "linear"])))

    def valid_request(name):
        k = kind_of[name]
        unit = rng.choice(UNITS[k])
        role = "same"
        ex = "none"
        if k != "scalar" and name != "Group T":
            ex = rng.choice(["none", "none", "constant", "linear"])
            if name == "U" and name not in full:
                role = rng.choice(["short", "same"])
            elif name in full:
                role = rng.choice(["same", "inner", "inner"])
                if role == "inner":
                    ex = "none"
        if role == "inner" and len(a.views) and a.views[full[name]][0][3] == "short":
            role = "short"
        if name == "U" and name in full:
            role = a.views[full[name]][0][3] if a.views[full[name]][0][3] == "short" else role
        request((k, name, unit, role, ex))
        full.setdefault(name, len(a.views) - 1)

    def valid_write():
        cand = [i for i, (s, v) in enumerate(a.views) if s[1] != "Group T" and s[3] == "same"]
        if not cand:
            return
        i = rng.choice(cand)
        spec, va = a.views[i]
        vb = b.views[i][1]
        o.event("write", repr(spec))
        if spec[0] == "scalar":
            x = gen.number(rng)
            o.returns("valid write {}".format(spec), setattr, va, "value", x)
            vb.value = x
        else:
            n = nvalues(spec[0], BASE)
            if spec[1] in written and rng.random() < 0.5:
                j, x = rng.randrange(n), float(rng.randint(-9, 9))
                o.returns("valid element write {}".format(spec), va.values.__setitem__, j, x)
                vb.values[j] = x
            else:
                x = gen.values(rng, n)
                o.returns("valid write {}".format(spec), setattr, va, "values", list(x))
                vb.values = list(x)
        written.add(spec[1])
        if kinds_refused:
            o.cover("valid write after refusal")
        if len(kinds_refused) > 1:
            o.nontrivial()

    def bad_write():
        cand = [i for i, (s, v) in enumerate(a.views) if s[1] != "Group T"]
        if not cand:
            return
        i = rng.choice(cand)
        spec, v = a.views[i]
        o.cover("refused write to written" if spec[1] in written else "refused write to empty")
        if spec[0] == "scalar":
            x = rng.choice(["abc", None, object(), {}, {"a": 1}])
            return refused("scalar not numeric", setattr, v, "value", x)
        n = nvalues(spec[0], axis_of(spec[3]))
        if spec[3] == "short":
            return refused("short series", setattr, v, "values", [1.0] * n)
        if spec[3] == "inner" and rng.random() < 0.8:
            if spec[1] not in written or rng.random() < 0.4:
                return refused("unmappable axis: full write", setattr, v, "values", np.array(gen.values(rng, n, "normal")))
            h = v.values
            if rng.random() < 0.5:
                return refused("unmappable axis: element write", h.__setitem__, rng.randrange(n), 77.0)

            def f():
                h = v.values
                h += 5.0

            return refused("unmappable axis: in-place", f)
        lock = rng.random() < 0.3
        if lock:
            v.lock()
            o.cover("refused while locked")
        h = v.values if spec[1] in written else None
        k = rng.randrange(4 if h is None else 12)
        if k == 0:
            m = rng.choice([m for m in (0, 1, 1, 2, n - 1, n + 1, 2 * n) if m != n])
            refused("wrong length", setattr, v, "values", rng.choice([list, np.array])([1.5] * m))
        elif k == 1:
            # not numeric: fails at the latest when it is published
            if not lock:
                refused("strings", setattr, v, "values", ["a"] * n)
        elif k == 2:
            if not lock:
                refused("None in values", setattr, v, "values", [1.0, None] + [2.0] * (n - 2))
        elif k == 3:
            refused("not a sequence", setattr, v, "values", rng.choice([5, None, 2.5]))
        elif k == 4:
            refused("element not numeric", h.__setitem__, rng.randrange(n), rng.choice(["abc", {}, object()]))
        elif k == 5:
            refused("index out of range", h.__setitem__, rng.choice([n, -n - 1, n + 5]), 1.0)
        elif k in (6, 7):
            refused("slice of wrong length", h.__setitem__, slice(0, 2), [1.0, 2.0, 3.0])
        elif k == 8:

            def f():
                h = v.values
                h += np.ones(n + 1)

            refused("in-place op of wrong shape", f)
        elif k == 9:

            def f():
                h = v.values
                h *= rng.choice(["abc", None])

            refused("in-place op with non-number", f)
        elif k == 10:
            refused("mask of wrong count", h.__setitem__, np.arange(n) < 3, [1.0, 2.0])
        else:
            refused("slice of wrong length", lambda: h[1:3].__setitem__(slice(None), np.ones(4)))
        if lock:
            v.unlock()

    for _ in range(gen.many(rng, rng.randint(12, 30))):
        k = rng.random()
        name = rng.choice(NAMES)
        if name == "Group T" and not ("Group T|a" in full and "Group T|b" in full):
            name = rng.choice(["Group T|a", "Group T|b"])
        if name.startswith("Group T|") and "Group T" in full and name not in full:
            name = "T"
        if k < 0.3:
            valid_request(name) if len(a.views) < 9 else valid_write()
        elif k < 0.45:
            bad_request(name)
        elif k < 0.65:
            valid_write()
        else:
            bad_write()
        if rng.random() < 0.6:
            compare(a.snapshot(NAMES), b.snapshot(NAMES), "the set in which steps were refused differs from one without them")
        if "Group T" in full and {"Group T|a", "Group T|b"} <= written:
            o.cover("parent observed")
    compare(a.snapshot(NAMES), b.snapshot(NAMES), "the set in which steps were refused differs from one without them")


def unlock_refused(rng, o):
    """publishing what cannot be mapped back fails at unlock; nobody else notices"""
    p = ParameterSet()
    kind = rng.choice(["point", "average"])
    n = nvalues(kind, BASE)
    v = p.timeseries("T|x", "K", gen.as_dt64(BASE), timeseries_type=kind)
    w = p.timeseries("T|x", "mK", gen.as_dt64(BASE), timeseries_type=kind)
    q = p.timeseries("T|x", "K", gen.as_dt64(BASE[1:6]), timeseries_type=kind)
    parent = p.timeseries("T", "K", gen.as_dt64(BASE), timeseries_type=kind)
    vals = gen.values(rng, n)
    o.event("write", repr(vals))
    v.values = vals
    before = [repr([float(x) for x in u.values]) for u in (v, w, parent)] + [v.version]
    q.lock()
    how = rng.randrange(3)
    m = nvalues(kind, BASE[1:6])
    if how == 0:
        q.values = np.ones(m)
    elif how == 1:
        q.values[1] = 5.5
    else:
        h = q.values
        h += 1.0
    for i in range(rng.randint(1, 2)):
        o.raises(errors.InsufficientDataError, "unlock", q.unlock)
        o.cover("refused unlock")
        after = [repr([float(x) for x in u.values]) for u in (v, w, parent)] + [v.version]
        o.eq(after, before, "refused unlock changed other views")
    vals = gen.values(rng, n)
    v.values = vals
    o.event("write", repr(vals))
    o.close([float(x) for x in parent.values], vals, "write after refused unlock", atol=1e-9)
    o.close([float(x) for x in w.values], np.array(vals) * 1e3, "write after refused unlock", atol=1e-6)
    o.nontrivial()


def refused_above(rng, o):
    """refused requests of a parent: children can still be added below it and its other views are as without them"""
    p, q = ParameterSet(), ParameterSet()
    kind = rng.choice(["scalar", "point", "average"])
    top = rng.choice(["E", "E|CO2", "Root|x|y"])
    units = UNITS[kind]
    ax = gen.as_dt64(BASE)

    def leaf(ps, name, unit):
        return ps.scalar(name, unit) if kind == "scalar" else ps.timeseries(name, unit, ax, timeseries_type=kind)

    def put(v, x):
        if kind == "scalar":
            v.value = x
        else:
            v.values = [x + i for i in range(nvalues(kind, BASE))]

    def get(v):
        return repr(v.value) if kind == "scalar" else repr([float(x) for x in v.values])

    def refuse():
        node = rng.choice([top, top.rsplit("|", 1)[0], top.split("|")[0]])
        ch = ["generic of a parent", "other type than its leaves", "undefined unit of a parent", "incompatible unit of a parent"]
        if kind != "scalar":
            ch += ["too few time points of a parent"]
        label = rng.choice(ch)
        o.cover(label)
        o.event("refuse", "{} {}", label, node)
        o.checks += 1
        if label == "generic of a parent":
            f, args, kw = p.generic, (node,), {}
        elif label == "other type than its leaves":
            if kind == "scalar":
                f, args, kw = p.timeseries, (node, rng.choice(units), ax), {"timeseries_type": rng.choice(["point", "average"])}
            elif rng.random() < 0.5:
                f, args, kw = p.scalar, (node, rng.choice(units)), {}
            else:
                f, args, kw = p.timeseries, (node, rng.choice(units), ax), {"timeseries_type": {"point": "average", "average": "point"}[kind]}
        else:
            unit = "nosuchunit" if label.startswith("undef") else rng.choice(BAD[kind]) if label.startswith("incomp") else rng.choice(units)
            if kind == "scalar":
                f, args, kw = p.scalar, (node, unit), {}
            else:
                f, args, kw = p.timeseries, (node, unit, ax[:0] if label.startswith("too few") else ax), {"timeseries_type": kind}
        try:
            f(*args, **kw)
        except Exception as e:
            o.event("raise", "{} -> {}".format(label, type(e).__name__))
            return True
        o.fail("{} was not refused".format(label), node=node, kind=kind)

    views = []
    total = 0.0
    n = rng.randint(2, 5)
    read_at = rng.randint(1, n)
    for i in range(n):
        name = top + "|" + rng.choice(["a", "b|c", "d|e|f"]) + str(i)
        unit = rng.choice(units)
        va = o.returns("request of {} after refused requests of names above it".format(name), leaf, p, name, unit)
        vb = leaf(q, name, unit)
        views.append((name, va, vb))
        for _ in range(rng.randint(0, 2)):
            refuse()
        if rng.random() < 0.7 or i == n - 1:
            x = float(rng.randint(-50, 50))
            put(va, x)
            put(vb, x)
            o.event("write", "{} {}", name, x)
        for _ in range(rng.randint(1, 2)):
            refuse()
        for name, a, b in views:
            o.eq((a.empty, a.version, a.unit), (b.empty, b.version, b.unit), "refused requests changed a leaf")
            if not b.empty:
                o.eq(get(a), get(b), "refused requests changed the values of a leaf")
    for name, a, b in views:
        if b.empty:
            put(a, 1.0)
            put(b, 1.0)
    unit = rng.choice(units)
    node = rng.choice([top, top.split("|")[0]])
    pa = o.returns("request of {} after refused ones".format(node), leaf, p, node, unit)
    o.eq(get(pa), get(leaf(q, node, unit)), "a parent reads differently after refused requests of it")
    o.cover("child added below a refused parent")
    # now that it is read, refused new children leave it as it is
    before = get(pa)
    for _ in range(rng.randint(1, 3)):
        new = top + "|" + rng.choice(["new", "new|x", views[0][0].split("|")[-1] + "|below"])
        o.raises((errors.ParameterReadError, errors.ParameterWrittenError), "new child {} below a read parent".format(new), leaf, p, new, unit)
        o.eq(get(pa), before, "a refused new child changed its parent")
        o.cover("refused new child")
    x = float(rng.randint(-50, 50))
    put(views[0][1], x)
    put(views[0][2], x)
    o.eq(get(pa), get(leaf(q, node, unit)), "a parent reads differently after refused new children")
    o.state(kind, n, top)
    o.nontrivial()


FAMILIES = [Family("refused above", refused_above, 600, 4000), Family("history", history, 2100, 12000), Family("unlock refused", unlock_refused, 180, 500)]
FAMILIES += [
    Family("long history", gen.large(history), 52, 400),
]
