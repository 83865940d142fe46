import re

import numpy as np
import pandas as pd

from openscm.scmdataframe import ScmDataFrame

from mon import gen, scm
from mon.core import Family

RULE = (
    "a case is a random frame (metadata with regular expression characters, '*' itself, line breaks, missing entries, numbers and extra columns) filtered by random "
    "patterns derived from its metadata; an independent matcher decides for every timeseries; non-trivial: the filter keeps some timeseries and removes others"
)
COVER = [
    "star start", "star middle", "star end", "only star", "no star", "several stars", "list", "tuple", "set", "array", "special characters", "case differs", "prefix only",
    "level", "level-", "level+", "level alone", "level removes pattern", "level with list", "level of two digits", "missing value as number", "regexp", "regexp list", "number", "number list", "number as text", "nearly equal numbers", "missing empty", "missing star",
    "missing other", "has_nan refused", "conjunction", "nothing kept", "all kept", "unknown column refused", "bad level refused", "empty metadata", "line break", "unit column",
    "own separator", "backslash", "empty list", "empty frame", "no text",
]
ASSUMPTIONS = [
    "text patterns are applied to columns of text and missing entries only (columns of numbers refuse them with TypeError)",
    "with regexp=True no level is given (what would be its literal part is not defined)",
]
TECHNIQUE = "online monitor: every filter event is judged by an independent pattern matcher over the model of the frame"


def matches(pattern, text):
    """'*' any run of characters, everything else itself, over the whole text"""
    parts = pattern.split("*")
    if len(parts) == 1:
        return text == pattern
    if not text.startswith(parts[0]):
        return False
    i = len(parts[0])
    for p in parts[1:-1]:
        j = text.find(p, i)
        if j < 0:
            return False
        i = j + len(p)
    return len(text) - i >= len(parts[-1]) and text.endswith(parts[-1])


def depth_ok(level, pattern, text, sep):
    lit = pattern.replace("*", "")
    if lit:
        text = text.replace(lit, "")
    n = text.count(sep)
    if isinstance(level, str):
        k = int(level[:-1])
        return n <= k if level[-1] == "-" else n >= k
    return n == level


def listed(values):
    if isinstance(values, str) or not hasattr(values, "__iter__"):
        return [values]
    return list(values)


def selects(row, col, values, regexp=False, level=None, sep="|"):
    x = scm.norm(row.get(col))
    for v in listed(values):
        if isinstance(v, str):
            text = "" if x is None else x
            ok = bool(re.compile(str(v)).match(text)) if regexp else matches(str(v), text)
            if ok and (level is None or depth_ok(level, str(v), text, sep)):
                return True
        elif x is not None and not isinstance(x, str) and x == v:
            return True
    return False


NASTY = [
    "a.c", "abc", "a+c", "aac", "a|c", "a|b|c", "ab", "abcd", "A.C", "(h)", "[x]", "x", "^a", "a$", "a\\d", "a5", "a{2}", "aa", "", "*", "ssp*", "ssp1", "a\nc", "abc\n", "nan", "None",
    "a c", " a", "é", "a?c", "a-c", "#a", "World|R5ASIA|China", "World|NH", "Emissions|CO2|Fossil", "Emissions|CO2", "Primary Energy|Coal|w/o CCS", "a||b", "|a", "a|",
]


def nasty_model(rng, extra_missing=True):
    cols = ["model", "scenario", "region", "variable", "unit"] + rng.sample(["stage", "todo", "note"], rng.randint(0, 2))
    numbers = rng.sample(["run", "ecs"], rng.randint(0, 2))
    n = rng.randint(2, 9)
    rows, seen = [], set()
    pools = {c: rng.sample(NASTY, rng.randint(1, 6)) for c in cols}
    while len(rows) < n:
        r = {c: rng.choice(pools[c]) for c in cols}
        for c in cols[5:]:
            if extra_missing and rng.random() < 0.35:
                r[c] = None
        for c in numbers:
            r[c] = rng.choice([0, 1, 2, 3.5, -999, 10])
        k = tuple(scm.typed(v) for v in r.values())
        if k in seen:
            for c in cols[:5]:
                pools[c].append(rng.choice(NASTY))
            continue
        seen.add(k)
        rows.append(r)
    ts = scm.times(rng, n=rng.randint(1, 4))
    return scm.Model(rows, ts, scm.matrix(rng, n, len(ts), 0))


def pattern(rng, o, text):
    """pattern that may or may not match `text`"""
    k = rng.randrange(12)
    a, b = sorted(rng.randint(0, len(text)) for _ in range(2))
    if k == 0:
        o.cover("star end")
        return text[:b] + "*"
    if k == 1:
        o.cover("star start")
        return "*" + text[a:]
    if k == 2:
        o.cover("star middle")
        return text[:a] + "*" + text[b:]
    if k == 3:
        o.cover("several stars")
        return "*" + text[a:b] + "*"
    if k == 4:
        o.cover("several stars")
        c = rng.randint(0, a)
        return text[:c] + "*" + text[c + 1 : a] + rng.choice(["*", "**"]) + text[b:]
    if k == 5:
        o.cover("only star")
        return "*"
    if k == 6 and len(text) > 1:
        o.cover("prefix only")
        return text[:-1]
    if k == 7:
        o.cover("case differs")
        return text.swapcase()
    if k == 8:
        return rng.choice(NASTY)
    if k == 9 and text:
        return "".join(rng.choice([ch, ch, ch, "*", "."]) for ch in text)
    o.cover("no star")
    return text


def classify(o, values):
    for v in listed(values):
        if isinstance(v, str):
            if re.search(r"[.+?(){}\[\]^$|]", v):
                o.cover("special characters")
            if "\\" in v:
                o.cover("backslash")
            if "\n" in v:
                o.cover("line break")


def pack(rng, o, vals):
    if len(vals) == 1 and rng.random() < 0.6:
        return vals[0]
    k = rng.choice(["list", "tuple", "set", "array"])
    o.cover(k)
    if k == "array":
        out = np.empty(len(vals), dtype=object)
        out[:] = vals
        return out if rng.random() < 0.5 or any(not isinstance(v, str) for v in vals) else np.array(vals)
    return {"list": list, "tuple": tuple, "set": set}[k](vals)


def judge(rng, o, f, m, filters, sep="|", **options):
    level = filters.get("level")
    keep = []
    for i, r in enumerate(m.rows):
        ok = True
        for c, v in filters.items():
            if c == "level":
                ok = ok and ("variable" in filters or selects(r, "variable", "*", level=level, sep=sep))
            else:
                ok = ok and selects(r, c, v, options.get("regexp", False), level if c == "variable" else None, sep)
        if ok:
            keep.append(i)
    if not keep:
        o.cover("nothing kept")
    elif len(keep) == len(m.rows):
        o.cover("all kept")
    else:
        o.nontrivial()
    o.state(len(m.rows), len(keep), tuple(sorted(filters)))
    snapshot = {c: (list(v) if isinstance(v, (list, tuple, np.ndarray)) else v) for c, v in filters.items()}
    o.event("filter", "{} {}", filters, options)
    got = o.returns("filter", f.filter, **dict(filters, **options))
    exp = m.take(keep).compact()
    scm.compare(o, scm.read(o, got), exp, "filtered frame", order=True, filters=filters, options=options)
    for c, v in snapshot.items():
        if isinstance(v, list):
            o.eq(list(filters[c]), v, "filter arguments changed")


def texts(rng, o):
    m = nasty_model(rng)
    f = m.build()
    for _ in range(6):
        cols = [c for c in m.cols if c not in ("run", "ecs")]
        filters = {}
        for c in rng.sample(cols, rng.choice([1, 1, 1, 2, 3])):
            vals = [pattern(rng, o, scm.norm(rng.choice(m.rows).get(c)) or "") for _ in range(rng.choice([1, 1, 2, 3]))]
            if rng.random() < 0.04:
                vals = []
                o.cover("empty list")
            filters[c] = pack(rng, o, vals)
            classify(o, filters[c])
            if any(r.get(c) is None for r in m.rows):
                for v in vals:
                    o.cover("missing empty" if v == "" else "missing star" if set(v) == {"*"} else "missing other")
            if any(r.get(c) == "" for r in m.rows):
                o.cover("empty metadata")
            if c == "unit":
                o.cover("unit column")
        if len(filters) > 1:
            o.cover("conjunction")
        judge(rng, o, f, m, filters)
    # values that are no text
    other = rng.choice([None, float("nan"), True, 0, [None], [], [None, float("nan")], pd.NaT, [rng.choice(m.rows)["model"], None]])
    o.cover("no text")
    judge(rng, o, f, m, {rng.choice([c for c in m.cols if c not in ("run", "ecs")]) if not isinstance(other, list) or len(other) < 2 or other[0] is None else "model": other})


def numbers(rng, o):
    m = scm.model(rng, n=rng.randint(2, 8), nan=0, extra=["run", "ecs"] + rng.sample(["stage"], rng.randint(0, 1)), missing=rng.choice([0, 0.3]))
    if rng.random() < 0.4:  # neighbours of numbers, and numbers as text
        for r in rng.sample(m.rows, rng.randint(1, len(m.rows))):
            c, x = rng.choice(["run", "ecs"]), rng.choice([r["ecs"], r["run"], 3.5, 2.0])
            if x is None:
                continue
            y = rng.choice([float(np.nextafter(float(x), 99)), x + 1e-9, x * (1 + 1e-6), str(x), str(x)])
            o.cover("number as text" if isinstance(y, str) else "nearly equal numbers")
            r[c] = y
            if rng.random() < 0.7:
                rng.choice(m.rows)[c] = x
    if not m.unique():
        return
    f = m.build()
    for _ in range(4):
        filters = {}
        for c in rng.sample(["run", "ecs"], rng.choice([1, 1, 2])):
            pool = [scm.norm(r.get(c)) for r in m.rows if not isinstance(scm.norm(r.get(c)), (str, type(None)))] + [77, 2.0, 1]
            vals = [rng.choice(pool) for _ in range(rng.choice([1, 1, 2]))]
            vals = [rng.choice([float, float, np.float64, (lambda x: int(x) if x == int(x) else x)])(v) for v in vals]
            if rng.random() < 0.1:
                vals[rng.randrange(len(vals))] = float("nan")
                o.cover("missing value as number")
            o.cover("number" if len(vals) == 1 else "number list")
            filters[c] = pack(rng, o, vals)
        if rng.random() < 0.4:
            filters["variable"] = pattern(rng, o, rng.choice(m.rows)["variable"])
        judge(rng, o, f, m, filters)


def levels(rng, o):
    m = scm.model(rng, n=rng.randint(3, 9), nan=0, variables=["Emissions", "Emissions|CO2", "Emissions|CO2|Fossil", "Emissions|CO2|Fossil|Coal", "Emissions|CO2|AFOLU", "x", "Emissions|Emissions|CO2", "CO2|x|CO2|y"])
    sep, cls = "|", ScmDataFrame
    if rng.random() < 0.25:
        sep = rng.choice(["/", ".", "__"])
        o.cover("own separator")
        cls = type("Own", (ScmDataFrame,), {"data_hierarchy_separator": sep})
        for r in m.rows:
            r["variable"] = r["variable"].replace("|", sep)
    deep = rng.random() < 0.3
    if deep:
        for r in m.rows:
            if rng.random() < 0.6:
                k = rng.choice([8, 9, 10, 11, 12, 19, 20])
                r["variable"] = sep.join([r["variable"]] + list("abcdefghijklmnopqrstuvw"[: k - r["variable"].count(sep)]))
        if not m.unique():
            return
    f = m.build(cls)
    for _ in range(5):
        n = rng.choice([8, 9, 10, 11, 12, 19, 20, 2, 1]) if deep else rng.randint(0, 3)
        if n > 9:
            o.cover("level of two digits")
        level = rng.choice([n, n, "%d-" % n, "%d+" % n])
        o.cover("level" if isinstance(level, int) else "level" + level[-1])
        filters = {"level": level}
        if rng.random() < 0.75:
            vals = []
            for _ in range(rng.choice([1, 1, 2])):
                v = rng.choice(m.rows)["variable"]
                k = v.split(sep)
                vals.append(rng.choice([v + "*", k[0] + "*", k[0] + sep + "*", "*", "*" + k[-1], sep.join(k[:2]) + "*", v, "*" + k[-1] + "*"]))
            filters["variable"] = vals[0] if len(vals) == 1 else vals
            if len(vals) > 1:
                o.cover("level with list")
            if any(v.replace("*", "") for v in vals):
                o.cover("level removes pattern")
        else:
            o.cover("level alone")
        if rng.random() < 0.3:
            filters["scenario"] = pattern(rng, o, rng.choice(m.rows)["scenario"])
        filters = dict(sorted(filters.items(), key=lambda kv: rng.random()))
        judge(rng, o, f, m, filters, sep)
    o.raises(ValueError, "level as text without sign", f.filter, level="1")
    o.cover("bad level refused")


REGEXPS = ["a.c", "^a", ".*c$", "a", "[ab]+", "(World|Emissions).*", r"\w+$", "a|b", "(?!a)", "x?", ".*CO2", r"a\|", "^$", ".+", "(?i)A"]


def regexps(rng, o):
    m = nasty_model(rng)
    f = m.build()
    for _ in range(5):
        filters = {}
        for c in rng.sample([c for c in m.cols if c not in ("run", "ecs")], rng.choice([1, 1, 2])):
            vals = [rng.choice(REGEXPS + [re.escape(scm.norm(rng.choice(m.rows).get(c)) or "")]) for _ in range(rng.choice([1, 1, 2]))]
            o.cover("regexp" if len(vals) == 1 else "regexp list")
            filters[c] = pack(rng, o, vals)
        judge(rng, o, f, m, filters, regexp=True)


def refused(rng, o):
    m = scm.model(rng, n=rng.randint(2, 5), nan=0, extra=["stage"], missing=0)
    m.rows[0]["stage"] = None
    m.rows[1]["stage"] = "init"
    if not m.unique():
        return
    f = m.build()
    o.raises(TypeError, "text filter over missing entries with has_nan=False", f.filter, has_nan=False, stage=rng.choice(["*", "init", ["init", "x"]]))
    o.cover("has_nan refused")
    o.raises(ValueError, "unknown column", f.filter, **{rng.choice(["nope", "Variable", "units", "years"]): "*"})
    o.cover("unknown column refused")
    judge(rng, o, f, m, {"stage": rng.choice(["init", "", "*", "i*"])})
    got = o.returns("filter has_nan=False on a complete column", f.filter, has_nan=False, scenario=m.rows[0]["scenario"])
    scm.compare(o, scm.read(o, got), m.take([i for i, r in enumerate(m.rows) if r["scenario"] == m.rows[0]["scenario"]]).compact(), "has_nan=False", order=True)


def nothing(rng, o):
    """filters over a frame without timeseries"""
    m = scm.model(rng, n=rng.randint(1, 4))
    f = m.build()
    f = rng.choice([lambda: f.filter(variable="*", keep=False), lambda: f.filter(year=9999)])()
    for _ in range(3):
        c = rng.choice(m.cols)
        filters = {c: rng.choice(["*", "", "World", 1.5, 3, ["a*", "b"], [1.5, "x"]])}
        if rng.random() < 0.5:
            filters["level"] = rng.choice([0, 1, "0+", "1-"])
        o.event("filter an empty frame", repr(filters))
        got = o.returns("filter an empty frame", f.filter, keep=rng.random() < 0.8, **filters)
        o.eq((len(got), len(got.time_points)), (0, 0), "filtered empty frame")
        o.cover("empty frame")


FAMILIES = [
    Family("nothing", nothing, 30, 300),
    Family("texts", texts, 260, 4000),
    Family("numbers", numbers, 110, 1600),
    Family("levels", levels, 110, 1600),
    Family("regexps", regexps, 80, 1200),
    Family("refused", refused, 25, 300),
]
FAMILIES += [
    Family("large texts", gen.large(texts), 17, 200),
    Family("large numbers", gen.large(numbers), 7, 80),
]
