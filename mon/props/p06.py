import operator

import numpy as np

from mon import gen, ref
from mon.core import Family
from mon.pset import ParameterSet, errors, arr, name_arg, nvalues, type_arg

RULE = (
    "a case is a random history of lock, unlock, full/element/slice/in-place writes through several views (own units, retained "
    "handles) of one or two leaf time series below a common parent; a model with one private buffer per locked view predicts what "
    "every view, handle and the parent shows and every version number; non-trivial: a locked view was written at least twice, "
    "others were observed before unlock and saw the complete state afterwards"
)
COVER = [
    "write while locked", "second write while locked", "unlock publishes", "unlock without write", "lock twice", "unlock twice",
    "other view writes while this one is pending", "two views locked at once", "locked first write of empty parameter", "parent observed while locked",
    "unlocked write after unlock", "handle write while locked", "relock after publish", "lock before any write, other view writes",
    "handle taken before lock", "reader on other axis",
]
ASSUMPTIONS = ["units are linear and time axes equal for written views (conversions are decided by P02)"]


class V:
    def __init__(self, leaf, view, unit):
        self.leaf, self.view, self.unit = leaf, view, unit
        self.locked = self.pending = False
        self.writes = 0
        self.buffer = None
        self.handles = []


class Leaf:
    def __init__(self, path):
        self.path, self.data, self.version, self.views = path, None, 0, []


def history(rng, o):
    p = ParameterSet()
    kind = rng.choice(["point", "average"])
    units = ref.FAMILIES[rng.choice(ref.LINEAR)]
    axis = gen.axis(rng, n=rng.randint(4, 8), style=rng.choice(["annual", "equal", "irregular"]))
    n = nvalues(kind, axis)
    if n < 3:
        axis = gen.axis(rng, n=6, style="annual")
        n = nvalues(kind, axis)
    leaves = [Leaf(("P", "a"))] + ([Leaf(("P", "b", "c"))] if rng.random() < 0.5 else [])
    base_unit = units[0]
    for l in leaves:
        for i in range(rng.randint(2, 3)):
            u = base_unit if i == 0 else rng.choice(units)
            l.views.append(V(l, p.timeseries(name_arg(rng, l.path), u.name, gen.as_dt64(axis), timeseries_type=type_arg(rng, kind)), u))
    reader = None
    if rng.random() < 0.4:
        raxis = gen.within(rng, axis, 5)
        if len(raxis) >= 4:
            reader = (raxis, p.timeseries(name_arg(rng, leaves[0].path), base_unit.name, gen.as_dt64(raxis), timeseries_type=kind))
    pu = rng.choice(units)
    parent = p.timeseries("P", pu.name, gen.as_dt64(axis), timeseries_type=kind)
    top_handle = None
    peak = 1e-6

    def conv(x, a, b):
        return np.array([ref.uconv(float(i), a, b) for i in x])

    def shown(v):
        """what view v must show (None: empty), in v's unit"""
        if v.pending:
            return v.buffer
        return None if v.leaf.data is None else conv(v.leaf.data, base_unit, v.unit)

    def same(got, exp, unit, msg, **info):
        o.close(got, exp, msg, rtol=1e-9, atol=1e-9 * peak * base_unit.scale / unit.scale, **info)

    def observe(all_of_it=False):
        # mostly only some of the views are looked at: looking refreshes what a view remembers
        nonlocal top_handle
        p_skip = 0 if all_of_it else rng.choice([0, 0.4, 0.8])
        locked = [v for l in leaves for v in l.views if v.pending]
        for l in leaves:
            for i, v in enumerate(l.views):
                if rng.random() < p_skip:
                    continue
                e = shown(v)
                text = "{} view{} ({}, locked={}, pending={})".format(l.path, i, v.unit, v.locked, v.pending)
                if e is None:
                    o.raises(errors.ParameterEmptyError, text, lambda: v.view.values)
                    o.check(v.view.empty, "empty parameter not reported empty")
                else:
                    handles_first = rng.random() < 0.5
                    if not handles_first:
                        same(arr(v.view.values), e, v.unit, text + " shows the wrong values")
                    for h in v.handles:
                        same(np.array(h + 0.0), e, v.unit, text + ": retained handle shows the wrong values")
                    if handles_first:
                        same(arr(v.view.values), e, v.unit, text + " shows the wrong values")
                    if rng.random() < 0.3 and len(v.handles) < 2:
                        v.handles.append(v.view.values)
                o.check(v.view.version == l.version, "version", view=text, observed=v.view.version, expected=l.version)
        if reader and leaves[0].data is not None and rng.random() >= p_skip:
            e = ref.convert(kind, axis, leaves[0].data, reader[0], "none")
            same(arr(reader[1].values), e, base_unit, "reader on other axis shows the wrong values")
            o.cover("reader on other axis")
        if any(l.data is None for l in leaves):
            o.raises(errors.ParameterEmptyError, "parent of empty leaf", lambda: parent.values)
        elif rng.random() >= p_skip:
            tot = sum(conv(l.data, base_unit, pu) for l in leaves)
            if top_handle is None or rng.random() < 0.5:
                same(arr(parent.values), tot, pu, "parent is not the sum of what is published")
            if top_handle is None:
                top_handle = parent.values
            same(arr(top_handle), tot, pu, "parent handle is not the sum of what is published")
            if locked:
                o.cover("parent observed while locked")
        o.state(tuple((v.locked, v.pending, v.leaf.data is None) for l in leaves for v in l.views))

    def publish(v):
        v.leaf.data = conv(v.buffer, v.unit, base_unit)
        v.leaf.version += 1
        v.pending = False
        v.writes = 0

    def write(v):
        nonlocal peak
        cur = shown(v)
        text = "{} view{}".format(v.leaf.path, v.leaf.views.index(v))
        if cur is None or rng.random() < 0.35:
            x = np.array(gen.values(rng, n, rng.choice(["normal", "int", "step"])))
            o.event("write", "{} = {}".format(text, x.tolist()))
            if v.locked and cur is None:
                o.cover("locked first write of empty parameter")
            v.view.values = x.copy()
            new = x
        else:
            new = np.array(cur)
            # a retained handle is written without looking at the view first
            h = rng.choice(v.handles) if v.handles and rng.random() < 0.7 else v.view.values
            if v.handles and v.locked:
                o.cover("handle write while locked")
            k = rng.randrange(4)
            x = rng.uniform(-9, 9)
            o.event("write", "{} way {} {!r}".format(text, k, x))
            if k == 0:
                j = rng.randrange(n)
                h[j] = x
                new[j] = x
            elif k == 1:
                j = rng.randrange(n)
                h[j:] = x
                new[j:] = x
            elif k == 2:
                h += x
                new += x
            else:
                np.multiply(h, x, out=h)
                new *= x
        if v.handles and not v.locked:
            o.cover("handle taken before lock")
        peak = max(peak, float(np.max(np.abs(conv(new, v.unit, base_unit)))))
        v.buffer = new
        v.pending = True
        v.writes += 1
        if any(w.pending and w is not v for w in v.leaf.views):
            o.cover("other view writes while this one is pending")
        if v.locked:
            o.cover("write while locked")
            if v.writes > 1:
                o.cover("second write while locked")
        else:
            publish(v)

    was = set()
    for _ in range(gen.many(rng, rng.randint(10, 28))):
        v = rng.choice(rng.choice(leaves).views)
        text = "{} view{}".format(v.leaf.path, v.leaf.views.index(v))
        k = rng.random()
        if k < 0.2:
            if v.locked:
                o.cover("lock twice")
            o.returns("lock " + text, v.view.lock)
            v.locked = True
            if id(v) in was:
                o.cover("relock after publish")
            if sum(w.locked for l in leaves for w in l.views) > 1:
                o.cover("two views locked at once")
        elif k < 0.42:
            if not v.locked:
                o.cover("unlock twice")
            n_writes, pend = v.writes, v.pending
            o.returns("unlock " + text, v.view.unlock)
            if pend:
                publish(v)
                o.cover("unlock publishes")
                was.add(id(v))
                if n_writes > 1:
                    o.nontrivial()
            elif v.locked:
                o.cover("unlock without write")
            v.locked = False
        else:
            if not v.locked and id(v) in was:
                o.cover("unlocked write after unlock")
            if not v.locked and any(w.locked and not w.pending for w in v.leaf.views):
                o.cover("lock before any write, other view writes")
            write(v)
            if rng.random() < 0.25:
                write(v)
        if rng.random() < 0.75:
            observe()
    observe(True)


FAMILIES = [Family("history", history, 2100, 12000)]
FAMILIES += [
    Family("long history", gen.large(history), 52, 400),
]
