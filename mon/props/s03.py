import datetime

import numpy as np
import pandas as pd

from mon import gen, ref, scm
from mon.core import Family

RULE = (
    "a case is a random frame on random times (years 1-9998, every month, weekday and hour) filtered by random combinations of year, month, day, hour and time; the kept "
    "points are compared with the calendar fields computed independently; non-trivial: the filter keeps some time points and removes others"
)
COVER = [
    "year", "years", "month number", "month numbers", "month name", "month abbreviation", "month range", "month list mixed", "several month ranges", "abbreviation and name range",
    "single month range", "day number", "day numbers", "weekday name", "weekday abbreviation", "weekday range", "weekday list mixed", "several weekday ranges", "hour", "hours",
    "time", "times", "time absent", "time with microseconds", "conjunction", "with metadata", "before 1677", "after 2262", "range", "tuple", "array", "series", "empty list", "empty frame",
    "decreasing range refused", "year text refused", "year float refused", "integer time refused", "unknown name refused", "lower case", "nothing kept", "leap day", "pd.Timestamp",
    "own year", "own time", "many values",
]
ASSUMPTIONS = [
    "the locale of the process is C or English (names of months and weekdays)",
    "pd.Timestamp is used as filter only for data within its range (pandas refuses the comparison otherwise)",
]
TECHNIQUE = "online monitor: every time filter event is judged by independently computed calendar fields of the model's time points"

MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]
DAYS = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]


def weekday(t):
    """0 = Monday; 1970-01-01 was a Thursday"""
    return (t // 86400 + 3) % 7


def axis(rng):
    k = rng.randrange(7)
    n = rng.randint(4, 16)
    if k == 0:
        return scm.times(rng, n=n)
    y = rng.choice([1, 4, 1600, 1676, 1900, 1999, 2000, 2016, 2263, 4000, 9990])
    t0 = gen.year_start(y)
    if k == 1:  # days in a row, some at the end of February
        t = gen.year_start(y) + 56 * 86400
        return [t + i * 86400 for i in range(n)]
    if k == 6:  # one point in every year
        y = min(y, 9900)
        return [gen.year_start(y + i) + rng.choice([0, 0, 86400 * rng.randint(0, 364)]) for i in range(n)]
    if k == 2:
        return [t0 + i * 3600 * rng.choice([1, 1]) for i in range(n)]
    if k == 3:
        return sorted({t0 + rng.randrange(3 * 365 * 86400) for _ in range(n)})
    if k == 4:
        return sorted({t0 + rng.randrange(3 * 365) * 86400 for _ in range(n)})
    return sorted(ref.to_seconds(datetime.datetime(y + i // 12, i % 12 + 1, rng.choice([1, 15, 28]), rng.choice([0, 12, 23]))) for i in range(n))


def text(rng, o, names, i, what):
    if rng.random() < 0.5:
        o.cover(what + " name")
        s = names[i]
    else:
        o.cover(what + " abbreviation")
        s = names[i][:3]
    if rng.random() < 0.2:
        o.cover("lower case")
        s = s.lower()
    return s


def named(rng, o, names, pool, what):
    """-> (filter argument, set of indices)"""
    out, want, ranges = [], set(), 0
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        a = rng.choice(pool) if rng.random() < 0.7 else rng.randrange(len(names))
        if rng.random() < 0.5:
            b = rng.randint(a, len(names) - 1)
            if a == b:
                o.cover("single month range" if what == "month" else "weekday range")
            x, y = text(rng, o, names, a, what), text(rng, o, names, b, what)
            if (len(x) == 3) != (len(y) == 3):
                o.cover("abbreviation and name range")
            out.append(x + "-" + y)
            want |= set(range(a, b + 1))
            ranges += 1
            o.cover(what + " range")
        else:
            out.append(text(rng, o, names, a, what))
            want.add(a)
    if ranges > 1:
        o.cover("several {} ranges".format(what))
    if 0 < ranges < len(out):
        o.cover(what + " list mixed")
    if len(out) == 1 and rng.random() < 0.6:
        return out[0], want
    return container(rng, o, out), want


def container(rng, o, xs):
    k = rng.choice(["list", "list", "tuple", "array", "series"])
    if k in ("tuple", "array", "series"):
        o.cover(k)
    if k == "array" and not isinstance(xs[0], int):
        return np.array(xs, dtype=object if not isinstance(xs[0], str) else None)
    return {"list": list, "tuple": tuple, "array": list, "series": lambda v: pd.Series(v, dtype=object if not isinstance(v[0], int) else None)}[k](xs)


def one(rng, o, m, f):
    """-> (name of the filter, argument, predicate of the time in seconds)"""
    t = rng.choice(m.times)
    d = ref.from_seconds(t)
    ds = m.datetimes()
    k = rng.choice(["year", "year", "month", "month", "day", "day", "hour", "time", "time"])
    if rng.random() < 0.03:
        o.cover("empty list")
        return k, [], lambda x: False
    if k == "year":
        if rng.random() < 0.1:
            o.cover("own year")
            return k, f["year"], lambda x: True
        if rng.random() < 0.4:
            o.cover("year")
            return k, d.year, lambda x: ref.from_seconds(x).year == d.year
        if rng.random() < 0.3:
            o.cover("range")
            a, b = d.year - rng.randint(0, 5), d.year + rng.randint(1, 9)
            return k, range(a, b), lambda x: a <= ref.from_seconds(x).year < b
        o.cover("years")
        if rng.random() < 0.5:
            o.cover("many values")
            ys = [rng.choice(ds).year + rng.choice([0, 0, 1, -1, rng.randint(-30, 30)]) for _ in range(rng.randint(5, 40))]
            return k, container(rng, o, ys), lambda x: ref.from_seconds(x).year in ys
        ys = [rng.choice(ds).year for _ in range(rng.randint(1, 4))] + [rng.randint(1, 3000)]
        return k, container(rng, o, ys), lambda x: ref.from_seconds(x).year in ys
    if k == "month":
        if rng.random() < 0.65:
            arg, want = named(rng, o, MONTHS, [x.month - 1 for x in ds], "month")
            return k, arg, lambda x: ref.from_seconds(x).month - 1 in want
        if rng.random() < 0.5:
            o.cover("month number")
            return k, d.month, lambda x: ref.from_seconds(x).month == d.month
        o.cover("month numbers")
        ms = [rng.choice(ds).month for _ in range(rng.randint(1, 3))] + [rng.randint(1, 12)]
        return k, container(rng, o, ms), lambda x: ref.from_seconds(x).month in ms
    if k == "day":
        if rng.random() < 0.65:
            arg, want = named(rng, o, DAYS, [weekday(x) for x in m.times], "weekday")
            return k, arg, lambda x: weekday(x) in want
        if rng.random() < 0.5:
            o.cover("day number")
            return k, d.day, lambda x: ref.from_seconds(x).day == d.day
        o.cover("day numbers")
        dd = [rng.choice(ds).day for _ in range(rng.randint(1, 3))] + [rng.randint(1, 31)]
        return k, container(rng, o, dd), lambda x: ref.from_seconds(x).day in dd
    if k == "hour":
        if rng.random() < 0.5:
            o.cover("hour")
            return k, d.hour, lambda x: ref.from_seconds(x).hour == d.hour
        o.cover("hours")
        hs = [rng.choice(ds).hour for _ in range(rng.randint(1, 3))] + [rng.randint(0, 23)]
        return k, container(rng, o, hs), lambda x: ref.from_seconds(x).hour in hs
    if rng.random() < 0.1:
        o.cover("own time")
        return k, f["time"], lambda x: True
    if rng.random() < 0.15:
        o.cover("time with microseconds")
        return k, d.replace(microsecond=rng.randint(1, 999999)), lambda x: False
    ts = sorted({rng.choice(m.times) for _ in range(rng.randint(1, 4))} | ({t + rng.choice([1, 3600, 86400])} if rng.random() < 0.5 and d.year < 9998 else set()))
    args = [ref.from_seconds(x) for x in ts]
    if any(x not in m.times for x in ts):
        o.cover("time absent")
    if all(1700 < x.year < 2250 for x in args + ds) and rng.random() < 0.3:
        args = [pd.Timestamp(x) for x in args]
        o.cover("pd.Timestamp")
    rng.shuffle(args)
    if len(args) == 1:
        o.cover("time")
        return k, args[0], lambda x: x in ts
    o.cover("times")
    return k, container(rng, o, args), lambda x: x in ts


def copied(v):
    return list(v) if not isinstance(v, (int, str, datetime.datetime)) else v


def select(rng, o):
    ts = axis(rng)
    m = scm.model(rng, n=rng.randint(1, 4), times_=ts, nan=rng.choice([0, 0, 0.3]))
    f = m.build()
    ys = [x.year for x in m.datetimes()]
    if ys[0] < 1677:
        o.cover("before 1677")
    if ys[-1] > 2262:
        o.cover("after 2262")
    if any((x.month, x.day) == (2, 29) for x in m.datetimes()):
        o.cover("leap day")
    for _ in range(7):
        filters, preds = {}, []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            k, arg, p = one(rng, o, m, f)
            if k not in filters:
                filters[k] = arg
                preds.append(p)
        if len(filters) > 1:
            o.cover("conjunction")
        keep_r = list(range(len(m.rows)))
        if rng.random() < 0.2:
            r = rng.choice(m.rows)["region"]
            filters["region"] = r
            keep_r = [i for i in keep_r if m.rows[i]["region"] == r]
            o.cover("with metadata")
        filters = dict(sorted(filters.items(), key=lambda kv: rng.random()))
        keep_t = [j for j, t in enumerate(m.times) if all(p(t) for p in preds)]
        before = {k: copied(v) for k, v in filters.items()}
        types = {k: type(v) for k, v in filters.items()}
        o.event("filter", "{}", {k: copied(v) for k, v in filters.items()})
        got = o.returns("filter", f.filter, **filters)
        exp = scm.Model([m.rows[i] for i in keep_r], [m.times[j] for j in keep_t], [[m.vals[i][j] for j in keep_t] for i in keep_r])
        exp = exp.compact() if keep_t else scm.Model([], [], [])
        o.state(len(m.times), len(keep_t), tuple(sorted(filters)))
        if not exp.rows:
            o.cover("nothing kept")
        elif len(keep_t) < len(m.times):
            o.nontrivial()
        scm.compare(o, scm.read(o, got), exp, "filtered frame", order=True, filters=before)
        for k in before:
            o.check(type(filters[k]) is types[k] and copied(filters[k]) == before[k], "filter arguments changed", before=before[k], after=filters[k])
    scm.compare(o, scm.read(o, f), m, "frame after filtering a copy", order=True)
    if rng.random() < 0.15:
        e = f.filter(variable="*", keep=False)
        t = m.datetimes()[0]
        for k, v in {"year": t.year, "month": t.month, "day": t.day, "hour": t.hour, "time": t}.items():
            got = o.returns("filter an empty frame", e.filter, **{k: rng.choice([v, [v]])})
            o.eq((len(got), len(got.time_points)), (0, 0), "filtered empty frame")
        got = o.returns("filter an empty frame", e.filter, **rng.choice([{"month": "Jan"}, {"day": "Mon-Fri"}, {"month": ["Jan-Mar", "May"]}]))
        o.eq((len(got), len(got.time_points)), (0, 0), "filtered empty frame")
        o.cover("empty frame")


def refused(rng, o):
    m = scm.model(rng, n=2, times_=axis(rng), nan=0)
    f = m.build()
    for names, k in ((MONTHS, "month"), (DAYS, "day")):
        a, b = sorted(rng.sample(range(len(names)), 2))
        bad = text(rng, o, names, b, k if k == "month" else "weekday") + "-" + text(rng, o, names, a, k if k == "month" else "weekday")
        arg = rng.choice([bad, [bad], [names[a], bad], [bad, names[b]], [names[a] + "-" + names[b], bad]])
        o.raises(ValueError, "decreasing range", f.filter, **{k: arg})
        o.cover("decreasing range refused")
        wrong = rng.choice(["nope", "Janu", "1", "", "Jan-", "-Feb", "Mon-x"] + [DAYS[0] if k == "month" else MONTHS[0]])
        o.raises(ValueError, "unknown name", f.filter, **{k: rng.choice([wrong, [wrong], [names[a], wrong]])})
        o.cover("unknown name refused")
    y = m.datetimes()[0].year
    o.raises(TypeError, "year as text", f.filter, year=rng.choice([str(y), [str(y)], [y, str(y)]]))
    o.cover("year text refused")
    o.raises(TypeError, "year as float", f.filter, year=rng.choice([float(y), [y + 0.5], [y, float(y)]]))
    o.cover("year float refused")
    o.raises(TypeError, "time as integer", f.filter, time=rng.choice([y, [y], [m.datetimes()[0], y], range(y, y + 2)]))
    o.cover("integer time refused")
    scm.compare(o, scm.read(o, f), m, "frame after refused filters", order=True)
    o.nontrivial()


FAMILIES = [Family("select", select, 320, 5000), Family("refused", refused, 60, 800)]
FAMILIES += [
    Family("large select", gen.large(select), 21, 250),
]
