import copy
import math
import operator
import re
import warnings

import numpy as np
import pandas as pd

from mon import gen, ref
from mon.core import Family
from mon.pset import ParameterSet, errors, arr, nvalues
from mon.tsmodel import Series

RULE = (
    "a case is a random history of full, element, slice, mask and in-place writes and reads through several views "
    "(different units, time axes, extrapolations) and retained handles of one or two time series parameters, compared with a "
    "reference model (stored data in first view's unit and axis; exact piecewise conversions); non-trivial: a write through one "
    "view was read back through another view or through a handle taken before that write"
)
COVER = [
    "repr",
    "old handle read after write through another view", "slice handle read", "element write", "slice write", "in-place ufunc", "in-place ufunc where", "floats written below an integer view",
    "write through slice handle", "full write", "integer first write", "caller array changed after write", "part of an array written", "other axis read",
    "write through finer axis", "empty read", "several writes between reads", "iadd on view.values", "mask write", "axis beyond read",
    "handle assigned to another view", "ufunc.at", "slice of a slice written", "array function", "in-place array function",
]
ASSUMPTIONS = [
    "reference conversions in mon/ref.py (exact rational piecewise linear arithmetic)",
    "writes through views on another axis are restricted to data such a write can represent",
    "tolerances scale with the magnitudes involved (about 1e-9 relative)",
]
CMP = [operator.lt, operator.gt, operator.le, operator.ge, operator.eq, operator.ne]


def read_handle(rng, o, s, w, h, sl):
    """one random way of looking at a retained handle"""
    exp, tol = s.expected(w)
    full = exp
    if sl is not None:
        exp = exp[sl]
    what = "{}: retained handle of view ({}, {}, {}){} ".format("|".join(s.path), w.unit, w.role, w.ex, " slice {}".format(sl) if sl else "")
    n = len(exp)
    k = rng.randrange(13)
    o.events["handle read"] += 1

    def c(got, e, name):
        o.close(got, e, what + "does not show the latest data by " + name, rtol=1e-11, atol=tol * 1.0000001)

    if k == 0 and n:
        i = rng.randrange(-n, n)
        c(float(h[i]), exp[i], "h[i]")
    elif k == 1:
        c([float(x) for x in h], exp, "iteration")
    elif k == 2:
        a = rng.uniform(-3, 3)
        c(np.array(h + a), exp + a, "h + a")
    elif k == 3:
        c(np.array(2.5 * h), exp * 2.5, "a * h") if tol < 1e300 else None
    elif k == 4:
        x = np.array(h, dtype=float)
        c(x, exp, "numpy conversion")
    elif k == 5:
        lo = rng.randint(0, n)
        hi = rng.randint(lo, n)
        c(np.array(h[lo:hi], dtype=float), exp[lo:hi], "h[a:b]")
    elif k == 6:
        op = rng.choice(CMP)
        ref_v = float(np.median(exp)) + rng.choice([-1, 1]) * (10 * tol + abs(float(np.median(exp))) * 1e-6 + 1e-3) if n else 0.0
        got = np.asarray(op(h, ref_v))
        clear = np.abs(exp - ref_v) > 10 * tol + 1e-9 * abs(ref_v)
        o.check(bool((got[clear] == op(exp, ref_v)[clear]).all()), what + "compares wrongly", got=got, expected=op(exp, ref_v))
    elif k == 7 and n:
        c(float(np.max(h)), float(np.max(exp)), "np.max")
    elif k == 8:
        c(np.array(np.negative(h)), -exp, "ufunc")
    elif k == 9:
        b = exp * 0.5 + 1
        c(np.array(h - b), exp - b, "h - array")
    elif k == 10:
        o.check(len(h) == n and h.shape == (n,), what + "has wrong length", len=len(h))
        idx = [rng.randrange(n) for _ in range(3)] if n else []
        c(np.array(h[np.array(idx, dtype=int)], dtype=float), exp[idx], "fancy indexing")
        o.check(h.ndim == 1 and h.nbytes == n * h.dtype.itemsize, what + "reports other dimensions", ndim=h.ndim, nbytes=h.nbytes)
    elif k == 11:
        text = repr(h)
        o.check(text.startswith("timeseries(array("), what + "text", text=text)
        shown = [float(x) for x in re.findall(r"-?(?:inf|nan|\d[\d.]*(?:e[-+]?\d+)?)", text[text.index("[") : text.index("]")])]
        o.close(shown, exp, what + "does not show the latest data by repr", rtol=1e-6, atol=tol * 1.0000001 + 1e-8 + 1e-7 * float(np.abs(exp).max() if n else 0))
        o.cover("repr")
    else:
        other = w.view.values
        c(np.array(h + (other if sl is None else other[sl]), dtype=float) / 2, exp, "h + other handle")


def observe(rng, o, s):
    if s.d is None:
        for w in s.views:
            o.raises(errors.ParameterEmptyError, "values of empty", lambda: w.view.values)
            o.check(w.view.empty, "empty timeseries not reported empty")
            o.cover("empty read")
        return
    items = []
    for w in s.views:
        items.append((w, None, None))
        items += [(w, h, sl) for h, sl in w.handles]
    rng.shuffle(items)
    if rng.random() < 0.4:
        # leave views and handles unread
        items = items[: rng.randint(0, len(items))]
    for w, h, sl in items:
        if h is None:
            if rng.random() < 0.7:
                s.check_view(o, w)
        else:
            read_handle(rng, o, s, w, h, sl)
            if s.last is not None and s.last is not w:
                o.cover("old handle read after write through another view")
                s.across = True
            if sl is not None:
                o.cover("slice handle read")
        if w.role != "same":
            o.cover("other axis read")
        if w.role == "beyond":
            o.cover("axis beyond read")
        if s.last is not None and s.last is not w:
            s.across = True
    o.state(len(items), s.last is not None and s.views.index(s.last), [w.role for w in s.views].__repr__())


def take_handle(rng, o, s):
    w = rng.choice(s.views)
    h = w.view.values
    if rng.random() < 0.5:
        w.handles.append((h, None))
    else:
        n = nvalues(s.kind, w.axis)
        sl = rand_slice(rng, n)
        w.handles.append((h[sl], sl))
    if len(w.handles) > 4:
        w.handles.pop(rng.randrange(4))
    o.event("handle", "view{} {}".format(s.views.index(w), w.handles[-1][1]))


def rand_slice(rng, n):
    k = rng.randrange(5)
    if k == 0:
        return slice(None)
    if k == 1:
        return slice(None, None, -1)
    if k == 2:
        return slice(rng.randrange(n), None, rng.randint(1, 2))
    lo = rng.randrange(n)
    return slice(lo, rng.randint(lo + 1, n))


def write(rng, o, s):
    """one random write; the model is updated the way the write's definition says"""
    same = s.same_views()
    if s.d is None or rng.random() < 0.3:
        return full_write(rng, o, s, rng.choice(s.views) if s.d is not None else rng.choice(same))
    w = rng.choice(same)
    i = s.views.index(w)
    cur, _ = s.expected(w)
    cur = np.array(cur)
    h, sl = rng.choice(w.handles + [(None, None)] * 2)
    h = w.view.values if h is None else h  # a handle taken before is not refreshed in any way here
    tgt = cur[sl] if sl is not None else cur  # view into cur
    n = len(tgt)
    if n == 0:
        return
    if rng.random() < 0.12:  # what is written to is part of a handle
        s2 = rand_slice(rng, n)
        if len(tgt[s2]):
            h, tgt = h[s2], tgt[s2]
            n, sl = len(tgt), (sl, s2)
            o.cover("slice of a slice written")
    k = rng.randrange(10)
    o.events["write"] += 1
    if k == 0:
        j = rng.randrange(-n, n)
        x = gen.number(rng)
        o.event("write", "view{} h[{}]={!r} slice={}".format(i, j, x, sl))
        h[j] = x
        tgt[j] = x
        o.cover("element write")
    elif k == 1:
        s2 = rand_slice(rng, n)
        m = len(range(*s2.indices(n)))
        x = gen.number(rng) if rng.random() < 0.4 else np.array(gen.values(rng, m))
        o.event("write", "view{} h[{}]={!r} slice={}".format(i, s2, x, sl))
        h[s2] = x
        tgt[s2] = x
        o.cover("slice write")
    elif k == 2:
        x = rng.uniform(-2, 2) if h.dtype.kind == "f" else rng.randint(-2, 2)
        op = rng.choice([operator.iadd, operator.isub, operator.imul])
        o.event("write", "view{} {} {!r} slice={}".format(i, op.__name__, x, sl))
        op(h, x)
        op(tgt, x)
        o.cover("in-place ufunc")
    elif k == 3 and rng.random() < 0.4:
        x = np.array(gen.values(rng, n, "normal" if h.dtype.kind == "f" else "int")).astype(h.dtype)
        o.event("write", "view{} np.add(h, x, out=h) slice={}".format(i, sl))
        plain = np.zeros(n)
        o.check(np.add(h, x, out=plain) is plain, "ufunc does not return its out array")
        o.close(plain, np.array([float(y) for y in h]) + x, "ufunc into a plain array", rtol=1e-12)
        o.check(np.add(h, x, out=h) is h, "ufunc does not return its out handle")
        np.add(tgt, x, out=tgt)
        o.cover("in-place ufunc")
    elif k == 3:
        # the handle is only written: the elements which are left out have to be the current ones
        mask = np.array([rng.random() < 0.5 for _ in range(n)])
        x = np.array(gen.values(rng, n, "normal" if h.dtype.kind == "f" else "int")).astype(h.dtype)
        o.event("write", "view{} np.negative(x, out=h, where=mask) slice={}".format(i, sl))
        np.negative(x, out=h, where=mask)
        tgt[mask] = -x[mask]
        o.cover("in-place ufunc where")
    elif k == 4:
        mask = np.array([rng.random() < 0.4 for _ in range(n)])
        x = float(gen.number(rng))
        o.event("write", "view{} h[mask]={} slice={}".format(i, x, sl))
        h[mask] = x
        tgt[mask] = x
        o.cover("mask write")
    elif k == 5 and n > 1:
        o.event("write", "view{} h[1:] += h[:-1] slice={}".format(i, sl))
        h[1:] += h[:-1]
        tgt[1:] += tgt[:-1].copy()
    elif k == 6:
        x = rng.uniform(-2, 2) if w.view.values.dtype.kind == "f" else rng.randint(-2, 2)
        o.event("write", "view{} view.values += {}".format(i, x))
        w.view.values += x
        cur += x
        o.cover("iadd on view.values")
    elif k == 7 and len(same) > 1:
        # assign what another view's handle shows
        src = rng.choice([v for v in same if v is not w])
        o.event("write", "view{}.values = handle of view{}".format(i, s.views.index(src)))
        w.view.values = src.view.values
        # rounding of what the source showed counts in the target's unit from now on
        s.peak = max(s.peak, s.peak * w.unit.scale / src.unit.scale)
        cur = np.array(s.expected(src)[0])
        o.cover("handle assigned to another view")
    elif k == 9:
        # repeated elements count every time
        idx = [rng.randrange(-n, n) for _ in range(rng.randint(1, n + 1))]
        x = rng.choice([rng.uniform(-2, 2), np.array(gen.values(rng, len(idx)))]) if h.dtype.kind == "f" else rng.randint(-3, 3)
        f = rng.choice([np.add, np.subtract])
        o.event("write", "view{} {}.at(h, {}, {!r}) slice={}".format(i, f.__name__, idx, x, sl))
        f.at(h, idx, x)
        f.at(tgt, idx, x)
        o.cover("ufunc.at")
    else:
        idx = sorted(rng.sample(range(n), rng.randint(1, n)))
        x = np.array(gen.values(rng, len(idx)))
        o.event("write", "view{} h[{}]={!r} slice={}".format(i, idx, x, sl))
        h[idx] = x
        tgt[idx] = x
    if sl is not None and k not in (6, 7):
        o.cover("write through slice handle")
    s.d = s.to_stored(cur, w.unit)
    s.last = w


def full_write(rng, o, s, w):
    i = s.views.index(w)
    if w.role == "same":
        vals = gen.values(rng, s.n)
        new = s.to_stored(vals, w.unit)
    elif w.role == "refine" or (w.role == "beyond" and s.kind == "point" and w.ex == "linear"):
        if w.role == "refine":
            new = gen.values(rng, s.n)
        else:
            a, b = rng.uniform(-5, 5), rng.uniform(-5, 5)
            span = s.axis[-1] - s.axis[0]
            new = [a + b * (t - s.axis[0]) / span for t in s.axis]
        f = ref.convert(s.kind, s.axis, new, w.axis, "linear")
        vals = [float(ref.uconv(x, s.stored, w.unit)) for x in f]
        o.cover("write through finer axis")
    else:
        return
    form = rng.choice(["array", "list", "int", "tuple"])
    if form == "int":
        if all(float(v).is_integer() and abs(v) < 2 ** 30 for v in vals):
            data = np.array(vals, dtype=rng.choice([np.int64, np.int32]))
            if s.d is None:
                o.cover("integer first write")
        else:
            data = np.array(vals)
    else:
        data = {"array": np.array(vals), "list": list(vals), "tuple": tuple(vals)}[form]
    if w.role == "same" and rng.random() < 0.3 and s.d is None:
        vals = [rng.randint(-9, 9) for _ in range(s.n)]
        data = rng.choice([list, np.array])(vals)
        new = s.to_stored(vals, w.unit)
        o.cover("integer first write")
    base = None
    if isinstance(data, np.ndarray) and rng.random() < 0.4:
        # a part of an array of the caller's
        base = np.zeros(2 * len(data) + 3, dtype=data.dtype)
        part = rng.choice([base[2:2 + len(data)], base[1:2 * len(data) + 1:2], base[len(data):0:-1], base.reshape(1, -1)[0, :len(data)]])
        part[...] = data
        data = part
        o.cover("part of an array written")
    o.event("write", "view{}.values = {!r}".format(i, vals))
    w.view.values = data
    o.cover("full write")
    if isinstance(data, np.ndarray):
        if base is not None:
            base[...] = -12345
        data[...] = -12345
        o.cover("caller array changed after write")
    elif isinstance(data, list):
        data[:] = [-12345] * len(data)
    s.d = list(new)
    s.peak = max([s.peak] + [abs(a) for a in new])
    s.last = w


def history(rng, o):
    p = ParameterSet()
    fam = rng.choice(list(ref.FAMILIES))
    kind = rng.choice(["point", "average"])
    series = []
    for k in range(rng.choice([1, 1, 1, 2])):
        s = Series(p, ("Emissions", "CO2" + str(k)), ("World",), fam, kind, gen.axis(rng, style=rng.choice(["annual", "irregular", "equal", "monthly", "mixed", "wide"])))
        s.last, s.across = None, False
        s.new_view(rng, o)
        series.append(s)
        if rng.random() < 0.3:
            observe(rng, o, s)
    watch = rng.choice([0.9, 0.6, 0.2])
    for _ in range(gen.many(rng, rng.randint(5, 16))):
        s = rng.choice(series)
        k = rng.random()
        if k < 0.25 and len(s.views) < 5:
            s.new_view(rng, o)
        elif k < 0.4 and s.d is not None:
            take_handle(rng, o, s)
        else:
            write(rng, o, s)
            if rng.random() < 0.3:
                write(rng, o, s)
                o.cover("several writes between reads")
        if rng.random() < watch:
            for q in series:
                observe(rng, o, q)
    for s in series:
        observe(rng, o, s)
        for w in s.views:
            if s.d is not None:
                s.check_view(o, w)
    if any(s.across for s in series):
        o.nontrivial()


def promotion(rng, o):
    """a view over integers gets floats written by another view just before it is written through an unread handle"""
    p = ParameterSet()
    kind = rng.choice(["point", "average"])
    axis = gen.axis(rng, lo=4, hi=8)
    n = nvalues(kind, axis)
    a, b = [p.timeseries("X", "K", gen.as_dt64(axis), timeseries_type=kind) for _ in range(2)]
    a.values = np.array([rng.randint(-9, 9) for _ in range(n)])
    handles = [(a.values, slice(None))]
    for _ in range(2):
        sl = rand_slice(rng, n)
        handles.append((handles[0][0][sl], sl))
    if rng.random() < 0.5:
        b.values
    cur = np.array([rng.randint(-40, 40) / 4 for _ in range(n)])
    if rng.random() < 0.5:
        b.values = cur.copy()
    else:
        b.values[:] = cur
    o.event("write", "floats {}", cur.tolist())
    h, sl = rng.choice(handles)
    m = len(cur[sl])
    x = np.array([rng.randint(-9, 9) for _ in range(m)])
    mask = np.array([rng.random() < 0.5 for _ in range(m)])
    k = rng.randrange(7)
    tgt = cur[sl]
    o.event("write", "{} {} {} {}", k, sl, x.tolist(), mask.tolist())
    if k == 0:
        np.negative(x, out=h, where=mask)
        tgt[mask] = -x[mask]
    elif k == 1:
        np.add(x, 1, out=h)
        tgt[...] = x + 1
    elif k == 2:
        h[mask] = 7
        tgt[mask] = 7
    elif k == 3:
        h += x + 0.25
        tgt += x + 0.25
    elif k == 4 and m:
        h[-1] = 0.75
        tgt[-1] = 0.75
    elif k == 5 and m:
        np.add.at(h, [0, m - 1, 0], 0.25)
        np.add.at(tgt, [0, m - 1, 0], 0.25)
    else:
        np.multiply(x, h, out=h)
        tgt *= x
    views = [a, b, p.timeseries("X", "K", gen.as_dt64(axis), timeseries_type=kind)]
    rng.shuffle(views)
    for v in views:
        o.close([float(y) for y in v.values], cur, "values after integers met floats", rtol=1e-9, atol=1e-9 * 400)
    for h, sl in handles:
        o.close([float(y) for y in h], cur[sl], "handle after integers met floats", rtol=1e-9, atol=1e-9 * 400)
    o.cover("floats written below an integer view")
    o.nontrivial()


READS = {
    "-h": operator.neg, "+h": operator.pos, "abs": abs, "2 - h": lambda h: 2 - h, "h ** 2": lambda h: h ** 2, "2.0 ** h": lambda h: 2.0 ** (h * 0.01), "h // 2": lambda h: h // 2,
    "h % 2": lambda h: h % 2, "1 / h": lambda h: 1 / h, "h / 4": lambda h: h / 4, "divmod": lambda h: divmod(h, 2), "divmod(20, h)": lambda h: divmod(20, h), "h @ ones": lambda h: h @ np.ones(len(h)),
    "ones @ h": lambda h: np.ones(len(h)) @ h, "dot": lambda h: np.dot(h, h), "mean": np.mean, "sum": np.sum, "std": np.std, "cumsum": np.cumsum, "diff": np.diff, "sort": np.sort,
    "concatenate": lambda h: np.concatenate([h, h]), "where": lambda h: np.where(h > 0, h, 0), "sorted": sorted, "in": lambda h: 0.75 in h, "list": list, "reversed": lambda h: list(reversed(h)),
    "asarray": np.asarray, "array": np.array, "copy": lambda h: np.array(copy.copy(h)), "deepcopy": lambda h: np.array(copy.deepcopy(h)), "round": np.round, "clip": lambda h: np.clip(h, 0, 3),
    "isnan": np.isnan, "maximum": lambda h: np.maximum(h, 1), "outer": lambda h: np.multiply.outer(h, h), "reduce": np.add.reduce, "accumulate": np.add.accumulate, "max": max, "min": min,
    "median": np.median, "h == h": lambda h: h == h, "h != 0.75": lambda h: h != 0.75, "h == array": lambda h: h == np.full(len(h), 0.75), "array <= h": lambda h: np.zeros(len(h)) <= h,
    "ones - h": lambda h: np.ones(len(h)) - h, "h + list": lambda h: h + [1] * len(h), "Series": lambda h: pd.Series(h).values, "Series - h": lambda h: (pd.Series(np.ones(len(h))) - h).values,
    "float32": lambda h: np.array(h, dtype=np.float32), "int": lambda h: np.array(h, dtype=int), "h[...]": lambda h: h[...], "h[None]": lambda h: h[None], "h[-1]": lambda h: h[-1],
    "h[np.int64(0)]": lambda h: h[np.int64(0)], "h[list]": lambda h: h[[0, -1]], "h[h > 0]": lambda h: h[h > 0], "h[(0,)]": lambda h: h[(0,)], "fsum": math.fsum, "sum()": sum,
    "argmax": np.argmax, "argsort": lambda h: np.argsort(h, kind="stable"), "tile": lambda h: np.tile(h, 2), "unique": np.unique, "stack": lambda h: np.stack([h, h]), "percentile": lambda h: np.percentile(h, 30),
    "flip": np.flip, "roll": lambda h: np.roll(h, 1), "nonzero": lambda h: np.nonzero(h)[0], "repeat": lambda h: np.repeat(h, 2), "take": lambda h: np.take(h, [0, -1]), "h[::-1]": lambda h: h[::-1],
    "h[::2][1:]": lambda h: h[::2][1:], "enumerate": lambda h: [i * v for i, v in enumerate(h)], "zip": lambda h: [a - b for a, b in zip(h, np.ones(len(h)))], "modf": np.modf, "isclose": lambda h: np.isclose(h, 0.75),
    "interp": lambda h: np.interp([0.5], np.arange(len(h)), h), "vectorize": lambda h: np.vectorize(lambda x: x + 1.0)(h), "any": lambda h: np.any(h > 3), "h > h[::-1]": lambda h: h > h[::-1], "h * h": lambda h: h * h,
}
WRITES = {
    "h += 1": lambda h: operator.iadd(h, 1), "h /= 2": lambda h: operator.itruediv(h, 2), "h **= 2": lambda h: operator.ipow(h, 2), "h //= 2": lambda h: operator.ifloordiv(h, 2), "h %= 3": lambda h: operator.imod(h, 3),
    "h -= h": lambda h: operator.isub(h, h), "h *= h": lambda h: operator.imul(h, h), "h += h[::-1]": lambda h: operator.iadd(h, np.array(h[::-1])), "clip": lambda h: np.clip(h, 0, 3, out=h),
    "modf": lambda h: np.modf(h, out=(h, np.zeros(len(h)))), "divmod": lambda h: np.divmod(h, 2, out=(h, np.zeros(len(h)))), "divmod second": lambda h: np.divmod(h, 2, out=(np.zeros(len(h)), h)),
    "accumulate": lambda h: np.add.accumulate(h, out=h), "add.at": lambda h: np.add.at(h, [0, 0], 1), "negative.at": lambda h: np.negative.at(h, [0]), "shuffle": lambda h: np.random.RandomState(1).shuffle(h),
    "h[...] =": lambda h: operator.setitem(h, Ellipsis, 3), "h[(0,)] =": lambda h: operator.setitem(h, (0,), 3), "h[h > 1] =": lambda h: operator.setitem(h, np.asarray(h) > 1, 3),
    "h[handle > 1] =": lambda h: operator.setitem(h, h > 1, -3), "h[:] = h[::-1]": lambda h: operator.setitem(h, slice(None), np.array(h[::-1])), "h[np.int64(0)] =": lambda h: operator.setitem(h, np.int64(0), 0.5),
    "reduce": lambda h: np.add.reduce(np.ones((3, len(h))), axis=0, out=h), "matmul": lambda h: np.matmul(np.eye(len(h)), np.full(len(h), 2.0), out=h), "sum": lambda h: np.sum(np.ones((3, len(h))), axis=0, out=h),
    "each": lambda h: [operator.setitem(h, i, v + 1) for i, v in enumerate(h)], "sqrt where": lambda h: np.sqrt(h, out=h, where=np.asarray(h) > 0), "h[::2] *= 3": lambda h: operator.imul(h[::2], 3),
    "h[::-1][0] =": lambda h: operator.setitem(h[::-1], 0, 9.0), "h[0] += 1": lambda h: operator.setitem(h, 0, h[0] + 1), "minimum": lambda h: np.minimum(h, 0.5, out=h),
}


def functions(rng, o):
    """what is known of arrays works on handles taken earlier: what it gives and what it writes is that of an array of the latest data"""
    p = ParameterSet()
    n = rng.randint(3, 7)
    axis = gen.as_dt64(gen.axis(rng, n), "s")
    views = [p.timeseries("X", "K", axis) for _ in range(3)]
    a, b, c = views
    # different values, none of them close to where any of the functions jumps (what is read may be rounded)
    draw = lambda: np.array([x / 4 + 0.11 for x in rng.sample(range(-40, 40), n)])
    cur = draw()
    a.values = cur
    if rng.random() < 0.5:
        b.values
    sl = rng.choice([slice(None), slice(None), slice(None, None, -1), slice(1, None), slice(0, n, 2)])
    h = a.values if sl == slice(None) and rng.random() < 0.5 else a.values[sl]
    for _ in range(rng.randint(1, 4)):
        cur = draw()
        rng.choice([b, b, c, c, a]).values = cur.copy()
        reading = rng.random() < 0.6
        name = rng.choice(sorted(READS if reading else WRITES))
        f = (READS if reading else WRITES)[name]
        o.event("read" if reading else "write", "{} sl={} data={}", name, sl, cur.tolist())
        exp = cur.copy()
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            try:
                e = f(exp[sl])
            except Exception as err:  # noqa  then it cannot be done with an array either
                continue
            g = o.returns(name, f, h)
            if reading:
                o.close(np.array(g, dtype=float), np.array(e, dtype=float), name + " of a handle", rtol=1e-9, atol=1e-9)
        cur = exp
        for w in rng.sample(views, 3):
            o.close(np.array([float(x) for x in w.values]), cur, "values after " + name, rtol=1e-9, atol=1e-9)
        o.close(np.array([float(x) for x in h]), cur[sl], "handle after " + name, rtol=1e-9, atol=1e-9)
        o.cover("array function" if reading else "in-place array function")
        o.state(name)
        o.nontrivial()


FAMILIES = [Family("history", history, 2700, 16000), Family("promotion", promotion, 750, 4000), Family("functions", functions, 1500, 8000)]
FAMILIES += [
    Family("large history", gen.large(history, 4), 50, 500),
]
