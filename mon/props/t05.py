import calendar
import datetime
import itertools

import numpy as np

from openscm.core.parameters import ParameterType
from openscm.scmdataframe import ScmDataFrame
from openscm.scmdataframe.offsets import generate_range, to_offset

from mon import gen, ref
from mon.core import Family

RULE = (
    "a case is an offset rule (kind, anchor, multiple) with several spans start <= end (years 1-9900, any time of day, on and off the offset, empty and "
    "long spans); generate_range, rollback, rollforward and apply are compared with a calendar written from the definition of the rules; "
    "non-trivial: a range of at least three steps with start or end off the offset or outside pandas' Timestamp range"
)
COVER = [
    "yearly start", "yearly end", "quarterly start", "quarterly end", "monthly start", "monthly end", "semi-month start", "semi-month end", "weekly",
    "week of month", "daily", "hourly", "minutely", "secondly", "anchored", "multiple", "start on offset", "start off offset", "end on offset",
    "end off offset", "start equals end", "before 1677", "after 2262", "across 2262", "time of day", "leap year", "business rejected", "resample range",
    "interleaved generators", "one-day span", "period written otherwise",
]
ASSUMPTIONS = [
    "on-offset times are the dates of the rule at the time of day of the start (rules do not normalise to midnight); fixed frequencies (D, H, T, S) are "
    "on offset everywhere",
    "52/53-week fiscal years (RE, REQ) are not covered",
]
TECHNIQUE = "generated and resampled date ranges compared, as an event stream, with an independent calendar automaton"

MONTHS = ["JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"]
DAYS = ["MON", "TUE", "WED", "THU", "FRI", "SAT", "SUN"]
TICKS = {"daily": ("D", 86400), "hourly": ("H", 3600), "minutely": ("T", 60), "secondly": ("S", 1)}
BUSINESS = [
    "B", "BM", "BMS", "BQ", "BQS", "BA", "BAS", "BQ-JAN", "BQS-FEB", "BA-JUN", "BAS-MAR", "BH", "C", "CBM", "CBMS", "CBH", "2B", "3BM", "2BQS", "5BAS-APR",
    "BY", "BYS", "10BH", "4C",
]


class Calendar:
    """on-offset dates (ordinals) of one rule, enumerated year by year"""

    def __init__(self, kind, anchor):
        self.kind, self.anchor = kind, anchor

    def year(self, y):
        k, a = self.kind, self.anchor
        out = []
        for m in range(1, 13):
            last = calendar.monthrange(y, m)[1]
            if k == "yearly start":
                days = [1] if m == a else []
            elif k == "yearly end":
                days = [last] if m == a else []
            elif k == "quarterly start":
                days = [1] if (m - a) % 3 == 0 else []
            elif k == "quarterly end":
                days = [last] if (m - a) % 3 == 0 else []
            elif k == "monthly start":
                days = [1]
            elif k == "monthly end":
                days = [last]
            elif k == "semi-month start":
                days = [1, a]
            elif k == "semi-month end":
                days = [a, last]
            elif k == "weekly":
                days = [d for d in range(1, last + 1) if datetime.date(y, m, d).weekday() == a]
            elif k == "week of month":
                week, wd = a
                days = [[d for d in range(1, last + 1) if datetime.date(y, m, d).weekday() == wd][week - 1]]
            out += [datetime.date(y, m, d).toordinal() for d in days]
        return out

    def around(self, lo, hi):
        """on-offset ordinals from the last one <= lo, enough of them to pass hi"""
        y0, y1 = datetime.date.fromordinal(lo).year, datetime.date.fromordinal(hi).year
        out = []
        for y in range(max(y0 - 2, 1), min(y1 + 3, 9999)):
            out += self.year(y)
        return out


def rule(rng, o):
    kind = rng.choice(
        ["yearly start", "yearly end", "quarterly start", "quarterly end", "monthly start", "monthly end", "semi-month start", "semi-month end", "weekly",
         "week of month", "daily", "hourly", "minutely", "secondly"]
    )
    o.cover(kind)
    mult = rng.choice([1, 1, 1, 2, 3, rng.randint(2, 13)])
    anchor, code = None, ""
    if kind.startswith(("yearly", "quarterly")):
        base = rng.choice({"yearly start": ["AS", "YS"], "yearly end": ["A", "Y"], "quarterly start": ["QS"], "quarterly end": ["Q"]}[kind])
        if rng.random() < 0.6:
            anchor = rng.randint(1, 12)
            code = base.replace("Y", "A") + "-" + MONTHS[anchor - 1]
            o.cover("anchored")
        else:
            anchor = 1 if kind.endswith("start") else 12
            code = base
    elif kind == "monthly start":
        code = "MS"
    elif kind == "monthly end":
        code = "M"
    elif kind.startswith("semi"):
        base = "SMS" if kind.endswith("start") else "SM"
        anchor = 15
        code = base
        if rng.random() < 0.5:
            anchor = rng.randint(2, 27)
            code = "{}-{}".format(base, anchor)
            o.cover("anchored")
    elif kind == "weekly":
        anchor = 6
        code = "W"
        if rng.random() < 0.7:
            anchor = rng.randrange(7)
            code = "W-" + DAYS[anchor]
            o.cover("anchored")
    elif kind == "week of month":
        anchor = (rng.randint(1, 4), rng.randrange(7))
        code = "WOM-{}{}".format(anchor[0], DAYS[anchor[1]])
    else:
        code = TICKS[kind][0]
        mult = rng.choice([1, 2, 6, 24, rng.randint(2, 90)])
    if mult > 1:
        o.cover("multiple")
        code = "{}{}".format(mult, code)
    if kind in TICKS and rng.random() < 0.2:
        # the same period written otherwise
        seconds = TICKS[kind][1] * mult
        h = seconds // 3600
        code = rng.choice(
            ["{}L".format(seconds * 1000), "{}S".format(seconds), "{}min{}S".format(seconds // 60, seconds % 60) if seconds >= 60 and seconds % 60 else "{}S".format(seconds)]
            + (["{}H{}T".format(h, seconds % 3600 // 60)] if h and seconds % 3600 and not seconds % 60 else [])
            + (["{}D{}H".format(h // 24, h % 24)] if h >= 24 and h % 24 and not seconds % 3600 else [])
            + (["1D{}S".format(seconds - 86400)] if seconds > 86400 else [])
        )
        o.cover("period written otherwise")
    return kind, anchor, mult, code


MEAN = {
    "yearly start": 366, "yearly end": 366, "quarterly start": 92, "quarterly end": 92, "monthly start": 31, "monthly end": 31, "semi-month start": 16,
    "semi-month end": 16, "weekly": 7, "week of month": 31,
}


def span(rng, o, kind, anchor, mult):
    y = rng.choice([rng.randint(3, 9800), rng.randint(1850, 2150), rng.choice([4, 100, 1600, 1676, 1677, 1899, 1900, 2000, 2261, 2262, 9700])])
    day = datetime.date(y, 1, 1).toordinal() + rng.randrange(365)
    tod = rng.choice([0, 0, 0, 43200, rng.randrange(86400)])
    if kind in TICKS:
        start = ref.from_seconds((day - datetime.date(1970, 1, 1).toordinal()) * 86400 + tod)
        n = rng.choice([0, 1, 5, 60])
        end = start + datetime.timedelta(seconds=TICKS[kind][1] * mult * n + rng.choice([0, 0, 1, rng.randrange(TICKS[kind][1] * mult)]))
        return start, end
    cal = Calendar(kind, anchor)
    if rng.random() < 0.4:
        day = rng.choice(cal.around(day, day))
    length = rng.choice([0, 1, MEAN[kind] * mult * rng.randint(1, 12) + rng.randint(0, 40), MEAN[kind] * rng.randint(1, 30)])
    if rng.random() < 0.15:  # long spans
        length = MEAN[kind] * mult * rng.randint(50, 200)
    end_day = min(day + length, datetime.date(9850, 1, 1).toordinal())
    if rng.random() < 0.4:
        later = [d for d in cal.around(end_day, end_day) if d >= day]
        end_day = rng.choice(later or [end_day])
    base = datetime.datetime(1, 1, 1)
    tod2 = rng.choice([tod, tod, rng.randrange(86400)])
    start = base + datetime.timedelta(days=day - 1, seconds=tod)
    end = base + datetime.timedelta(days=end_day - 1, seconds=tod2)
    return start, max(start, end)


def expected(kind, anchor, mult, start, end):
    """the range by definition"""
    if kind in TICKS:
        step = datetime.timedelta(seconds=TICKS[kind][1] * mult)
        out = [start]
        while out[-1] < end:
            out.append(out[-1] + step)
        return out
    tod = start - datetime.datetime(start.year, start.month, start.day)
    cal = Calendar(kind, anchor)
    need = end.toordinal() + (MEAN[kind] + 1) * mult + 1
    days = cal.around(start.toordinal(), need)
    first = max(i for i, d in enumerate(days) if d <= start.toordinal())
    out = []
    for i in itertools.count(first, mult):
        out.append(datetime.datetime(1, 1, 1) + datetime.timedelta(days=days[i] - 1) + tod)
        if out[-1] >= end:
            return out


def observe(o, kind, anchor, mult, start, end):
    on = set() if kind in TICKS else set(Calendar(kind, anchor).around(start.toordinal(), end.toordinal()))
    off = False
    for name, t in (("start", start), ("end", end)):
        if kind in TICKS or t.toordinal() in on:
            o.cover(name + " on offset")
        else:
            o.cover(name + " off offset")
            off = True
        if t.year < 1677:
            o.cover("before 1677")
            off = True
        if t.year > 2262:
            o.cover("after 2262")
            off = True
        if calendar.isleap(t.year):
            o.cover("leap year")
        if t.hour or t.minute or t.second:
            o.cover("time of day")
    if start.year < 2262 < end.year:
        o.cover("across 2262")
    if start == end:
        o.cover("start equals end")
    if end - start == datetime.timedelta(days=1):
        o.cover("one-day span")
    return off


def compare(o, got, exp, code, start, end):
    for i, (a, b) in enumerate(itertools.zip_longest(got, exp)):
        if a != b:
            o.fail(
                "wrong date in the generated range", rule=code, start=start, end=end, position=i, observed=a, expected=b,
                observed_length=len(got), expected_length=len(exp),
            )
    o.checks += len(exp)
    for a in got:
        o.check(isinstance(a, datetime.datetime), "not a datetime", got=a)


def ranges(rng, o):
    kind, anchor, mult, code = rule(rng, o)
    offset = o.returns("to_offset({!r})".format(code), to_offset, code)
    running = []
    for _ in range(rng.randint(2, 4)):
        start, end = span(rng, o, kind, anchor, mult)
        exp = expected(kind, anchor, mult, start, end)
        off = observe(o, kind, anchor, mult, start, end)
        if len(exp) >= 3 and off:
            o.nontrivial()
        o.state(code, len(exp), start.year // 100)
        if rng.random() < 0.3:
            # several generators of one offset running at the same time
            running.append((iter(generate_range(start, end, offset)), [], exp, start, end))
            continue
        o.event("range", "{} {} {}", code, start, end)
        got = o.returns("generate_range", lambda: list(itertools.islice(generate_range(start, end, offset), len(exp) + 5)))
        compare(o, got, exp, code, start, end)
    if len(running) > 1:
        o.cover("interleaved generators")
    live = list(running)
    while live:
        g = rng.choice(live)
        x = next(g[0], None)
        if x is None or len(g[1]) > len(g[2]) + 5:
            live.remove(g)
        else:
            g[1].append(x)
    for _, got, exp, start, end in running:
        o.event("range", "{} {} {}", code, start, end)
        compare(o, got, exp, code, start, end)


def rolling(rng, o):
    """rollback / rollforward / apply of one offset"""
    kind, anchor, mult, code = rule(rng, o)
    offset = o.returns("to_offset({!r})".format(code), to_offset, code)
    for _ in range(6):
        t, _ = span(rng, o, kind, anchor, mult)
        observe(o, kind, anchor, mult, t, t)
        if kind in TICKS:
            back = fwd = t
            nxt = t + datetime.timedelta(seconds=TICKS[kind][1] * mult)
        else:
            o.nontrivial()
            days = Calendar(kind, anchor).around(t.toordinal(), t.toordinal() + (MEAN[kind] + 1) * (mult + 2))
            i = max(i for i, d in enumerate(days) if d <= t.toordinal())
            at = lambda k: t + datetime.timedelta(days=days[k] - t.toordinal())
            back = at(i)
            on = days[i] == t.toordinal()
            fwd = t if on else at(i + 1)
            nxt = at(i + mult)
        o.eq(o.returns("rollback {}".format(t), offset.rollback, t), back, "rollback is not the last on-offset time", rule=code, time=t)
        o.eq(o.returns("rollforward {}".format(t), offset.rollforward, t), fwd, "rollforward is not the next on-offset time", rule=code, time=t)
        if kind in TICKS or on:
            o.eq(o.returns("apply {}".format(t), offset.apply, t), nxt, "apply is not the next step", rule=code, time=t)


def business(rng, o):
    for code in rng.sample(BUSINESS, 6):
        o.raises(ValueError, "to_offset({!r})".format(code), to_offset, code)
        o.cover("business rejected")
    # afterwards everything else still works
    ranges(rng, o)


def resampled(rng, o):
    """the time axis of ScmDataFrame.resample"""
    kind, anchor, mult, code = rule(rng, o)
    start, end = span(rng, o, kind, anchor, mult)
    if start.year < 5 or end - start < datetime.timedelta(seconds=60):
        start = datetime.datetime(1900, 2, 3)
        end = start + datetime.timedelta(days=rng.randint(20, 400))
    exp = expected(kind, anchor, mult, start, end)
    if len(exp) > 1500 or len(exp) < 2:
        return
    t0, t1 = ref.to_seconds(start), ref.to_seconds(end)
    inner = sorted({t0, t1} | {rng.randint(t0, t1) for _ in range(rng.randint(1, 6))})
    if len(inner) < 3:
        return
    vals = gen.values(rng, len(inner))
    df = ScmDataFrame(
        np.array(vals)[:, None],
        index=[ref.from_seconds(t) for t in inner],
        columns={"model": "m", "scenario": "s", "region": "World", "variable": "Surface Temperature", "unit": "K", "climate_model": "c",
                 "parameter_type": "point"},
    )
    kw = {"extrapolation_type": rng.choice(["linear", "constant"])}
    o.event("resample", "{} {} {}", code, start, end)
    out = o.returns("resample({!r})".format(code), df.resample, code, **kw)
    got = [t for t in out["time"]]
    observe(o, kind, anchor, mult, start, end)
    compare(o, [t.to_pydatetime() if hasattr(t, "to_pydatetime") else t for t in got], exp, code, start, end)
    o.cover("resample range")
    if len(exp) >= 3:
        o.nontrivial()


FAMILIES = [
    Family("ranges", ranges, 900, 12000),
    Family("rolling", rolling, 350, 6000),
    Family("business", business, 60, 600),
    Family("resampled", resampled, 160, 2500),
]
