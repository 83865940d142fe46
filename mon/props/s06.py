import pandas as pd

from openscm.scmdataframe import ScmDataFrame

from mon import gen, scm, scmops
from mon.core import Family
from mon.scmops import textual

RULE = (
    "a case is a random history of 4-12 operations applied to a frame and to an independent model of it (rows of metadata, times, values); after every operation the "
    "frame is observed through every read interface and compared row by row; non-trivial: at least four different kinds of operations on two or more timeseries"
)
COVER = [
    "filter", "append", "rename", "set_meta scalar", "set_meta list", "set_meta series", "set_meta item", "set_meta index", "set_meta frame", "set_meta derived", "convert_unit",
    "set time", "interpolate", "copy", "in place", "out of place", "index subset", "index covers several", "after filter: indexed", "after append: list", "missing metadata",
    "missing values", "duplicate index refused", "unknown index refused", "duplicated metadata refused by timeseries", "from a shuffled table", "time points out of order",
]
ASSUMPTIONS = ["histories never make metadata of two timeseries equal (timeseries() refuses those frames, which is checked separately)"]
TECHNIQUE = "reference-model monitor over operation histories: after each operation event every read interface is compared with the model"


def history(rng, o):
    m = scmops.start(rng, n=rng.randint(2, 7), nan=rng.choice([0, 0, 0, 0.25]))
    if any(r.get(c) is None for r in m.rows for c in m.cols):
        o.cover("missing metadata")
    if any(x != x for v in m.vals for x in v):
        o.cover("missing values")
    if rng.random() < 0.4:
        df = pd.DataFrame({c: [r.get(c) for r in m.rows] for c in m.cols})
        for j, t in enumerate(m.datetimes()):
            df[t] = [v[j] for v in m.vals]
        perm = list(range(len(df)))
        rng.shuffle(perm)
        df = df.iloc[perm]
        f = ScmDataFrame(df)
        m = m.take(perm)
        o.cover("from a shuffled table")
    else:
        f = m.build()
    last, kinds = None, set()
    for step in range(gen.many(rng, rng.randint(4, 12))):
        op = scmops.random_op(rng, m)
        o.event("op", "{} {}", op.label, op.info)
        o.cover(op.label)
        if op.label == "set_meta series" or op.label in ("set_meta item", "set_meta index", "set_meta frame"):
            names, chosen = op.info[1], op.info[2]
            n = sum(tuple(scm.norm(r.get(c)) for c in names) in chosen for r in m.rows)
            if n < len(m.rows):
                o.cover("index subset")
            if n > len(chosen):
                o.cover("index covers several")
            if last == "filter":
                o.cover("after filter: indexed")
        if op.label == "set_meta list" and last == "append":
            o.cover("after append: list")
        if op.run is None or (op.inplace is not None and rng.random() < 0.5):
            o.cover("in place")
            o.returns(op.label, op.inplace, f)
        else:
            o.cover("out of place")
            f = o.returns(op.label, op.run, f)
        got = scm.read(o, f, what="after " + op.label)
        scm.compare(o, got, op.exp, "after " + op.label, order=op.order, atol=op.tol, operation=op.info, step=step)
        # go on from what was observed (order after append, rounding)
        m = got
        if m.times != sorted(m.times):
            o.cover("time points out of order")
        last = op.label
        kinds.add(op.label.split()[0])
        o.state(last, op.label, len(m.rows) > 1, len(m.times) > 1)
        if len(m.rows) > 12 or len(m.times) > 30:
            break
    if len(kinds) >= 4:
        o.nontrivial()


def refused(rng, o):
    """ambiguous and unknown indices"""
    m = scmops.start(rng, n=rng.randint(2, 6), nan=0)
    f = m.build()
    complete = [c for c in m.cols if all(scm.norm(r.get(c)) is not None for r in m.rows)]
    names = rng.sample(complete, rng.randint(1, min(4, len(complete))))
    keys = sorted({tuple(scm.norm(r.get(c)) for c in names) for r in m.rows}, key=repr)
    rng.shuffle(keys)
    for kind in ("duplicate", "unknown"):
        ks = list(keys[: rng.randint(1, len(keys))])
        if kind == "duplicate":
            ks.insert(rng.randint(0, len(ks)), rng.choice(ks))
        else:
            bad = tuple("nowhere" if isinstance(x, str) else 123456 for x in ks[0])
            ks.insert(rng.randint(0, len(ks)), bad)
        index = pd.Index([k[0] for k in ks], name=names[0]) if len(names) == 1 else pd.MultiIndex.from_tuples(ks, names=names)
        name = rng.choice(["new", "scenario"])
        if rng.random() < 0.5:
            o.raises(ValueError, kind + " index", f.set_meta, pd.Series(range(len(ks)), index=index), name=name)
        else:
            o.raises(ValueError, kind + " index", f.set_meta, list(range(len(ks))), name=name, index=index)
        o.cover(kind + " index refused")
        scm.compare(o, scm.read(o, f), m, "after a refused index", order=True)
    # equal metadata of two timeseries are never paired silently
    g = f.copy()
    for c in m.cols:
        g[c] = "same"
    o.raises(ValueError, "timeseries() with duplicated metadata", g.timeseries)
    o.cover("duplicated metadata refused by timeseries")
    sub = [c for c in m.cols if len({scm.typed(r.get(c)) for r in m.rows}) < len(m.rows)]
    if sub:
        o.raises(ValueError, "timeseries(meta) with duplicates", f.timeseries, [sub[0]])
    c = rng.sample(m.cols, rng.randint(1, len(m.cols)))
    if m.unique(c):
        ts = o.returns("timeseries(meta)", f.timeseries, c)
        o.eq(list(ts.index.names), c, "columns of timeseries(meta)")
        got = [tuple(scm.typed(x) for x in (k if isinstance(k, tuple) else (k,))) for k in ts.index]
        o.eq(got, [tuple(scm.typed(r.get(x)) for x in c) for r in m.rows], "rows of timeseries(meta)")
        o.close(ts.values, m.vals, "values of timeseries(meta)", rtol=0)
    o.nontrivial()


FAMILIES = [Family("history", history, 200, 2400), Family("refused", refused, 60, 500)]
FAMILIES += [
    Family("large history", gen.large(history), 13, 120),
]
