import operator

import numpy as np

from mon import gen
from mon.core import Family
from mon.pset import ParameterSet, ParameterType, errors, name_arg

RULE = (
    "a case is a random history of view requests (scalar, point, average, generic; any node of a small tree in two regions), "
    "writes through every write path and reads; a state machine of the hierarchy rules (type, read, written per node) predicts "
    "success or the exact error of every step and the parameters that exist; after refused steps all readable values are compared "
    "with the ones before; non-trivial: at least one request was refused by the rules and one succeeded after it"
)
COVER = [
    "ParameterTypeError", "ParameterTypeError from leaf", "ParameterAggregationError", "ParameterReadonlyError", "ParameterWrittenError",
    "ParameterReadError", "ParameterReadError from ancestor", "readonly setitem", "readonly slice", "readonly iadd", "readonly out=",
    "readonly assignment", "readonly while locked", "readonly scalar", "readonly on empty parent", "readonly slice handle",
    "readonly assign by wrong length", "average versus point", "no unit",
]
ASSUMPTIONS = ["unit and time axis are the same for all timeseries here (conversions are decided by P02, P03)"]

AXIS = gen.as_dt64([gen.year_start(2000 + i) for i in range(6)])
KINDS = ["scalar", "point", "average", "generic"]
PT = {"scalar": ParameterType.SCALAR, "point": ParameterType.POINT_TIMESERIES, "average": ParameterType.AVERAGE_TIMESERIES, "generic": ParameterType.GENERIC}


EMPTY = object()


class Node:
    def __init__(self):
        self.type = None
        self.read = self.written = False


class Model:
    def __init__(self):
        self.nodes = {}  # (region, path) -> Node
        self.data = {}  # (region, path) of leaves -> value
        self.order = []

    def children(self, key):
        r, path = key
        return [k for k in self.nodes if k[0] == r and len(k[1]) == len(path) + 1 and k[1][:-1] == path]

    def leaves(self, key):
        ch = self.children(key)
        if not ch:
            return [key]
        return [l for c in ch for l in self.leaves(c)]

    def request(self, key, kind):
        """-> (error class or None, label)"""
        r, path = key
        for i in range(1, len(path) + 1):
            k = (r, path[:i])
            if k in self.nodes:
                continue
            if i > 1:
                if self.nodes[(r, path[: i - 1])].written:
                    return errors.ParameterWrittenError, "ParameterWrittenError"
                for j in range(i - 1, 0, -1):
                    if self.nodes[(r, path[:j])].read:
                        return errors.ParameterReadError, "ParameterReadError" + (" from ancestor" if j < i - 1 else "")
            self.nodes[k] = Node()
        node = self.nodes[key]
        if node.type is not None and node.type != kind:
            return errors.ParameterTypeError, "ParameterTypeError"
        if self.children(key):
            if kind == "generic":
                return errors.ParameterAggregationError, "ParameterAggregationError"
            for l in self.leaves(key):
                if self.nodes[l].type is not None and self.nodes[l].type != kind:
                    return errors.ParameterTypeError, "ParameterTypeError from leaf"
            for l in self.leaves(key):
                self.nodes[l].type, self.nodes[l].read = kind, True
        node.type, node.read = kind, True
        return None, None


def make(p, rng, key, kind, unit):
    r, path = key
    kw = {"region": name_arg(rng, r)} if r != ("World",) or rng.random() < 0.5 else {}
    if kind == "scalar":
        return p.scalar(name_arg(rng, path), unit, **kw)
    if kind == "generic":
        return p.generic(name_arg(rng, path), **kw)
    return p.timeseries(name_arg(rng, path), unit, AXIS, timeseries_type=rng.choice([kind, PT[kind], kind.upper(), kind.title()]), **kw)


def read(v, kind):
    if kind in ("scalar", "generic"):
        return v.value
    return tuple(float(x) for x in v.values)


class Monitor:
    def __init__(self, rng, o):
        self.rng, self.o, self.p, self.m = rng, o, ParameterSet(), Model()
        self.views = []  # (key, kind, view)
        self.refused = 0
        self.unit = rng.choice(["kg", "kg", "", "dimensionless", "K", "GtC / yr"])
        if self.unit in ("", "dimensionless"):
            o.cover("no unit")

    def value(self, key, kind):
        """model value of a view or EMPTY if some leaf is empty"""
        ls = self.m.leaves(key)
        if any(l not in self.m.data for l in ls):
            return EMPTY
        if kind == "generic":
            return self.m.data[key]
        if kind == "scalar":
            return sum(self.m.data[l] for l in ls)
        return tuple(np.sum([self.m.data[l] for l in ls], axis=0))

    def observe(self):
        o = self.o
        for key, kind, v in self.views:
            e = self.value(key, kind)
            if e is EMPTY:
                o.raises(errors.ParameterEmptyError, "read {} with empty leaf".format(key), read, v, kind)
            elif kind == "generic":
                o.check(v.value is e, "generic value changed", key=key)
            else:
                o.close(read(v, kind), e, "value of {} {} differs".format(key, kind), rtol=1e-9, atol=1e-9)
        for key, node in self.m.nodes.items():
            info = self.p.info(key[1], region=key[0])
            o.check(info is not None, "parameter does not exist", key=key)
            exp = PT[node.type] if node.type else None
            o.check(info.parameter_type is exp, "type differs", key=key, observed=info.parameter_type, expected=exp)
            o.check(info.empty == (not node.written), "emptiness differs", key=key)
        o.state(tuple(sorted((k, n.type, n.read, n.written) for k, n in self.m.nodes.items())))

    def request(self, key, kind):
        o, rng = self.o, self.rng
        before = set(self.m.nodes)
        exc, label = self.m.request(key, kind)
        text = "{} view of {}".format(kind, key)
        if exc is None:
            v = o.returns(text, make, self.p, rng, key, kind, self.unit)
            self.views.append((key, kind, v))
            if self.refused:
                o.nontrivial()
        else:
            o.raises(exc, text, make, self.p, rng, key, kind, self.unit)
            o.cover(label)
            t = self.m.nodes.get(key)
            if label == "ParameterTypeError" and {t.type, kind} == {"point", "average"}:
                o.cover("average versus point")
            self.refused += 1
            if key not in self.m.nodes:
                o.check(self.p.info(key[1], region=key[0]) is None, "refused request created the parameter", key=key)

    def write(self, i):
        o, rng = self.o, self.rng
        key, kind, v = self.views[i]
        if self.m.children(key):
            return self.write_parent(key, kind, v)
        text = "write {} {}".format(kind, key)
        if kind == "scalar":
            x = float(rng.randint(-99, 99))
            o.returns(text, setattr, v, "value", x)
        elif kind == "generic":
            x = rng.choice([object(), "text", [1, 2], {"a": 1}, True, None, 3])
            o.returns(text, setattr, v, "value", x)
        else:
            n = 5 if kind == "average" else 6
            x = np.array([float(rng.randint(-99, 99)) for _ in range(n)])
            if key in self.m.data and rng.random() < 0.5:
                j = rng.randrange(n)
                y = np.array(self.m.data[key])
                y[j] = x[j]
                o.returns(text + "[{}]".format(j), v.values.__setitem__, j, float(x[j]))
                x = y
            else:
                o.returns(text, setattr, v, "values", x.copy())
        self.m.data[key] = x
        self.m.nodes[key].written = True

    def write_parent(self, key, kind, v):
        o, rng = self.o, self.rng
        R = errors.ParameterReadonlyError
        text = "parent {}: ".format(key)
        o.cover("ParameterReadonlyError")
        version = v.version
        if kind == "scalar":
            o.raises(R, text + "value =", setattr, v, "value", 3.0)
            o.cover("readonly scalar")
        else:
            n = 5 if kind == "average" else 6
            locked = rng.random() < 0.2
            if locked:
                v.lock()
                o.cover("readonly while locked")
            ways = ["assign"]
            if self.value(key, kind) is not EMPTY:
                ways += ["setitem", "slice", "iadd", "out", "view iadd", "slice handle", "mask", "imul"]
            else:
                o.cover("readonly on empty parent")
            for way in rng.sample(ways, rng.randint(1, len(ways))):
                h = v.values if way != "assign" else None
                if way == "assign":
                    m = rng.choice([n, n, n - 1])
                    if m != n:
                        o.cover("readonly assign by wrong length")
                    o.raises(R, text + "values =", setattr, v, "values", np.ones(m))
                    o.cover("readonly assignment")
                elif way == "setitem":
                    o.raises(R, text + "h[i] =", h.__setitem__, rng.randrange(n), 5.0)
                    o.cover("readonly setitem")
                elif way == "slice":
                    o.raises(R, text + "h[a:] =", h.__setitem__, slice(rng.randrange(n), None), 5.0)
                    o.cover("readonly slice")
                elif way == "mask":
                    o.raises(R, text + "h[mask] =", h.__setitem__, np.arange(n) > 2, 5.0)
                elif way == "iadd":
                    o.raises(R, text + "h +=", operator.iadd, h, 5.0)
                    o.cover("readonly iadd")
                elif way == "imul":
                    o.raises(R, text + "h *=", operator.imul, h, np.full(n, 2.0))
                elif way == "out":
                    o.raises(R, text + "np.add(out=h)", np.add, np.ones(n), 1.0, out=h)
                    o.cover("readonly out=")
                elif way == "slice handle":
                    s = h[1:3]
                    if rng.random() < 0.5:
                        o.raises(R, text + "h[1:3][0] =", s.__setitem__, 0, 5.0)
                    else:
                        o.raises(R, text + "h[1:3] -=", operator.isub, s, 5.0)
                    o.cover("readonly slice handle")
                else:

                    def f():
                        v.values += 2.0

                    o.raises(R, text + "values +=", f)
            if locked:
                o.returns(text + "unlock", v.unlock)
        o.check(v.version == version, "refused write changed the version", key=key)
        self.refused += 1


def history(rng, o):
    mon = Monitor(rng, o)
    names = ["A", "B", "C"][: rng.randint(1, 3)]
    regions = [("World",), ("World", "R")][: rng.choice([1, 1, 2])]
    kinds = rng.choice([KINDS, ["point", "average"], ["scalar", "generic"], ["scalar"] * 6 + KINDS, ["point"] * 6 + KINDS])
    for _ in range(gen.many(rng, rng.randint(8, 24))):
        if mon.views and rng.random() < 0.45:
            mon.write(rng.randrange(len(mon.views)))
        else:
            depth = rng.choice([1, 2, 2, 3, 3, 4])
            existing = [k for k in mon.m.nodes]
            if existing and rng.random() < 0.6:
                key = rng.choice(existing)
                if rng.random() < 0.4 and len(key[1]) < 5:
                    key = (key[0], key[1] + tuple(rng.choice(names) for _ in range(rng.randint(1, 2))))
            else:
                key = (rng.choice(regions), tuple(rng.choice(names) for _ in range(depth)))
            mon.request(key, rng.choice(kinds))
        if rng.random() < 0.5:
            mon.observe()
    mon.observe()


FAMILIES = [Family("history", history, 3600, 15000)]
FAMILIES += [
    Family("long history", gen.large(history), 90, 500),
]
