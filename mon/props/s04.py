import datetime
import warnings

from mon import gen, ref, scm
from mon.core import Family
from mon.props.s02 import nasty_model

RULE = (
    "a case is a random frame with missing values and metadata, filtered by a random conjunction of metadata and time filters: the kept and the dropped part are "
    "recorded and the recorded points are checked for conservation (each point in exactly one part, unchanged), and re-filtered in sequence, twice and in place; "
    "non-trivial: both parts contain points"
)
COVER = [
    "metadata and time", "metadata only", "time only", "keep empty", "drop empty", "split within a timeseries", "dropped timeseries", "dropped time points", "missing values",
    "missing metadata", "sequence", "two orders", "idempotent", "inplace", "inplace drop", "empty frame", "filter of an empty frame", "regexp", "before 1677", "chain",
    "without filters", "level", "infinite values",
]
ASSUMPTIONS = [
    "metadata identify the timeseries (no duplicates), so points can be told apart",
    "`level` is kept together with `variable` when a conjunction is split (its meaning depends on it)",
]
TECHNIQUE = "conservation checker over the recorded points of the kept and the dropped part; equivalence of recorded filter histories"


def one(rng, o, m, options):
    k = rng.choice(["meta", "meta", "meta", "time", "time", "year", "month", "day", "hour", "level"])
    d = rng.choice(m.datetimes())
    ds = m.datetimes()
    if k == "meta":
        textual = [c for c in m.cols if all(isinstance(scm.norm(r.get(c)), (str, type(None))) for r in m.rows)]
        c = rng.choice(textual)
        vals = [scm.norm(rng.choice(m.rows).get(c)) or "" for _ in range(rng.choice([1, 1, 2]))]
        if options.get("regexp"):
            import re

            vals = [re.escape(v) for v in vals]
        else:
            vals = [rng.choice([v, v[: len(v) // 2] + "*", "*" + v[len(v) // 2 :]]) for v in vals]
        return {c: vals if len(vals) > 1 or rng.random() < 0.5 else vals[0]}
    if k == "level":
        if options.get("regexp"):
            return {}
        o.cover("level")
        n = rng.randint(0, 2)
        v = rng.choice(m.rows)["variable"]
        return {"level": rng.choice([n, "%d-" % n, "%d+" % n]), "variable": rng.choice(["*", v.split("|")[0] + "*", v])}
    if k == "time":
        return {"time": [rng.choice(ds) for _ in range(rng.randint(1, 5))]}
    if k == "year":
        return {"year": sorted({rng.choice(ds).year for _ in range(rng.randint(1, 4))})}
    if k == "month":
        return {"month": rng.choice([d.month, "Jan", "Feb-Oct", ["Jan", "Jul-Dec"]])}
    if k == "day":
        return {"day": rng.choice([d.day, [d.day, 1], "Mon-Fri", ["Sat", "Sunday"]])}
    return {"hour": rng.choice([d.hour, [0, d.hour]])}


TIME = {"time", "year", "month", "day", "hour"}


def conjunction(rng, o, m, options):
    parts = []
    used = set()
    for _ in range(rng.choice([1, 1, 2, 3])):
        p = one(rng, o, m, options)
        if not p or used & set(p):
            continue
        used |= set(p)
        parts.append(p)
    return parts


def start(rng, o):
    if rng.random() < 0.3:
        m = nasty_model(rng)
        m.vals = scm.matrix(rng, len(m.rows), len(m.times), 0.2)
    else:
        m = scm.model(rng, n=rng.choice([1, 2, 4, 6, 9]))
    if rng.random() < 0.12:
        for v in m.vals:
            for j, x in enumerate(v):
                if x == x and rng.random() < 0.3:
                    v[j] = rng.choice([float("inf"), float("-inf")])
        o.cover("infinite values")
    if any(x != x for v in m.vals for x in v):
        o.cover("missing values")
    if any(r.get(c) is None for r in m.rows for c in m.cols):
        o.cover("missing metadata")
    if ref.from_seconds(m.times[0]).year < 1677:
        o.cover("before 1677")
    return m


def check_compact(o, r, what):
    """nothing without a point is left"""
    pts = r.points()
    have_r = {k for k, _ in pts}
    have_t = {t for _, t in pts}
    o.check(set(r.keys()) == have_r, what + ": timeseries without values left", have=len(have_r), rows=len(r.rows))
    o.check(set(r.times) == have_t, what + ": time points without values left", times=r.times)
    o.check(r.times == sorted(r.times), what + ": time points out of order")


def partition(rng, o):
    m = start(rng, o)
    f = m.build()
    options = {}
    if rng.random() < 0.2:
        options["regexp"] = True
        o.cover("regexp")
    parts = conjunction(rng, o, m, options) if rng.random() > 0.06 else []
    filters = {k: v for p in parts for k, v in p.items()}
    if not filters:
        o.cover("without filters")
    kinds = (bool(set(filters) & TIME), bool(set(filters) - TIME))
    o.cover({(True, True): "metadata and time", (True, False): "time only", (False, True): "metadata only", (False, False): "without filters"}[kinds])
    o.event("filter", "{} {}", filters, options)
    kept = o.returns("filter", f.filter, **dict(filters, **options))
    dropped = o.returns("filter keep=False", f.filter, keep=False, **dict(filters, **options))
    rk, rd = scm.read(o, kept), scm.read(o, dropped)
    cols = m.cols
    pk, pd_, all_ = rk.points(cols), rd.points(cols), m.points(cols)
    both = set(pk) & set(pd_)
    o.check(not both, "point in the kept and in the dropped part", points=sorted(both)[:3], filters=filters)
    union = dict(pk)
    union.update(pd_)
    scm.points_equal(o, union, all_, "kept and dropped part together", filters=filters)
    check_compact(o, rk, "kept")
    check_compact(o, rd, "dropped")
    for part, r in ((kept, rk), (dropped, rd)):
        o.eq(sorted(part.meta.columns), sorted(m.cols), "metadata columns")
        o.check([k for k in m.keys(cols) if k in set(r.keys(cols))] == r.keys(cols), "order of the timeseries changed")
    if pk and pd_:
        o.nontrivial()
        if {k for k, _ in pk} & {k for k, _ in pd_}:
            o.cover("split within a timeseries")
    if len(rk.rows) < len(m.rows):
        o.cover("dropped timeseries")
    if len(rk.times) < len(m.times):
        o.cover("dropped time points")
    if not pk:
        o.cover("keep empty")
        empty(rng, o, kept, m, parts)
    if not pd_:
        o.cover("drop empty")
        empty(rng, o, dropped, m, parts)
    o.state(len(pk) > 0, len(pd_) > 0, tuple(sorted(filters)))

    # the same in sequence, in any order
    for label in ("sequence", "two orders"):
        order = list(parts) or [{}]
        if label == "two orders":
            if len(parts) < 2:
                continue
            order.reverse()
        g = f
        for p in order:
            g = o.returns("filter in sequence", g.filter, **dict(p, **options))
        scm.compare(o, scm.read(o, g), rk, "filters in " + label, order=True, filters=order)
        o.cover(label)
    # again
    scm.compare(o, scm.read(o, o.returns("filter again", kept.filter, **dict(filters, **options))), rk, "filtered twice", order=True, filters=filters)
    scm.compare(o, scm.read(o, o.returns("filter dropped again", dropped.filter, keep=False, **dict(filters, **options))), rd, "dropped twice", order=True, filters=filters)
    e = o.returns("keep the dropped", dropped.filter, **dict(filters, **options))
    o.eq(len(e), 0, "a dropped point is kept")
    o.cover("idempotent")
    # in place
    g = f.copy()
    o.check(o.call("filter inplace", g.filter, inplace=True, **dict(filters, **options)) is None, "inplace returns something")
    scm.compare(o, scm.read(o, g), rk, "inplace", order=True, filters=filters)
    o.cover("inplace")
    g = f.copy()
    o.call("filter inplace keep=False", g.filter, keep=False, inplace=True, **dict(filters, **options))
    scm.compare(o, scm.read(o, g), rd, "inplace keep=False", order=True, filters=filters)
    o.cover("inplace drop")
    scm.compare(o, scm.read(o, f), m, "original frame", order=True)


def empty(rng, o, e, m, parts):
    o.cover("empty frame")
    o.eq(len(e), 0, "length of an empty frame")
    o.eq(len(e.time_points), 0, "time points of an empty frame")
    o.eq(e.timeseries().size, 0, "timeseries of an empty frame")
    for p in parts:
        g = o.returns("filter of an empty frame", e.filter, keep=rng.random() < 0.5, **p)
        o.eq(len(g), 0, "filtered empty frame")
    o.cover("filter of an empty frame")


def chain(rng, o):
    """several keep/drop filters one after the other only ever remove points"""
    m = start(rng, o)
    f = m.build()
    left = m.points()
    cols = m.cols
    for step in range(rng.randint(2, 5)):
        p = one(rng, o, m, {})
        keep = rng.random() < 0.4
        k = o.returns("filter", f.filter, keep=keep, **p)
        other = o.returns("filter", f.filter, keep=not keep, **p)
        r, s = scm.read(o, k).points(cols), scm.read(o, other).points(cols)
        o.check(not set(r) & set(s), "point in both parts", filters=p)
        union = dict(r)
        union.update(s)
        scm.points_equal(o, union, left, "parts of step {}".format(step), filters=p)
        if r and s:
            o.nontrivial()
        o.cover("chain")
        left = r
        f = k
        o.state(step, len(left) > 0)


FAMILIES = [Family("partition", partition, 230, 3000), Family("chain", chain, 90, 1400)]
FAMILIES += [
    Family("large partition", gen.large(partition), 15, 150),
    Family("large chain", gen.large(chain), 6, 70),
]
