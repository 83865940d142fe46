"""
Model of a ScmDataFrame (metadata rows, times in seconds, matrix of values), generators of
frames and the observation of real ones through the public interface only.
"""
import datetime
import math
import random

import numpy as np
import pandas as pd

from . import core, gen, ref

REQUIRED = ["model", "scenario", "region", "variable", "unit"]


def norm(x):
    """metadata value as comparable thing, None if missing"""
    if x is None or x is pd.NaT:
        return None
    if isinstance(x, (float, np.floating)):
        return None if math.isnan(x) else float(x)
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    return x


def typed(x):
    """like norm but keeps strings and numbers apart and sortable"""
    x = norm(x)
    if x is None:
        return (0, "")
    if isinstance(x, str):
        return (1, x)
    if isinstance(x, (int, float)):
        return (2, "{!r}".format(float(x)))
    return (3, repr(x))


class Model:
    def __init__(self, rows, times, vals):
        self.rows = [dict(r) for r in rows]
        self.times = list(times)
        self.vals = [list(v) for v in vals]

    def copy(self):
        return Model(self.rows, self.times, self.vals)

    @property
    def cols(self):
        out = []
        for r in self.rows:
            out += [c for c in r if c not in out]
        return REQUIRED + sorted(c for c in out if c not in REQUIRED)

    def key(self, i, cols=None):
        return tuple((c, typed(self.rows[i].get(c))) for c in (cols or self.cols))

    def keys(self, cols=None):
        return [self.key(i, cols) for i in range(len(self.rows))]

    def unique(self, cols=None):
        k = self.keys(cols)
        return len(set(k)) == len(k)

    def points(self, cols=None):
        """{(metadata key, time): value} of the non-missing points"""
        cols = cols or self.cols
        out = {}
        for i, v in enumerate(self.vals):
            k = self.key(i, cols)
            for t, x in zip(self.times, v):
                if not math.isnan(x):
                    out[k, t] = x
        return out

    def take(self, rows):
        return Model([self.rows[i] for i in rows], self.times, [self.vals[i] for i in rows])

    def compact(self):
        """without timeseries and time points which have no values"""
        keep_r = [i for i, v in enumerate(self.vals) if not all(math.isnan(x) for x in v)]
        keep_t = [j for j in range(len(self.times)) if any(not math.isnan(self.vals[i][j]) for i in keep_r)]
        return Model([self.rows[i] for i in keep_r], [self.times[j] for j in keep_t], [[self.vals[i][j] for j in keep_t] for i in keep_r])

    def datetimes(self):
        return [ref.from_seconds(t) for t in self.times]

    def build(self, cls=None):
        """
        The frame, made from an array and a `columns` dict or in another way which gives the very same frame
        but may leave it with another internal state, e.g. other labels (chosen by the content, so it is repeatable).
        """
        if cls is None:
            from openscm.scmdataframe import ScmDataFrame as cls
        rng = random.Random(repr((self.rows, self.times, self.vals)))
        how = rng.choice(["plain", "plain", "labels", "filtered", "wide", "copied", "renamed", "assigned", "read"])
        f = None
        if how != "plain":
            try:
                f = getattr(self, "_build_" + how)(cls, rng)
                if f is not None and not self.same(f):
                    f = None
            except Exception:  # noqa  not what is observed here
                f = None
        if f is None:
            f, how = self._plain(cls), "plain"
        if core.CURRENT is not None:
            core.CURRENT.cover("frame made: " + how)
        return f

    def unordered(self, rng):
        """the same data with its time points in another order"""
        order = rng.sample(range(len(self.times)), len(self.times))
        return Model([dict(r) for r in self.rows], [self.times[i] for i in order], [[v[i] for i in order] for v in self.vals])

    def ordered(self):
        """the same data in order of time"""
        order = sorted(range(len(self.times)), key=lambda i: self.times[i])
        return Model([dict(r) for r in self.rows], [self.times[i] for i in order], [[v[i] for i in order] for v in self.vals])

    def same(self, f):
        """does the frame describe exactly this data, in this order?"""
        meta, vals = f.meta, f._data.values.T
        return (
            sorted(meta.columns) == sorted(self.cols)
            and [seconds(t) for t in f.time_points] == self.times
            and [[typed(x) for x in r] for r in meta[self.cols].values.tolist()] == [[typed(r.get(c)) for c in self.cols] for r in self.rows]
            and vals.shape == (len(self.rows), len(self.times))
            and np.array_equal(vals, np.array(self.vals, dtype=float).reshape(vals.shape), equal_nan=True)
        )

    def _plain(self, cls, rows=None, vals=None, times=None):
        rows = self.rows if rows is None else rows
        cols = {c: [r.get(c) for r in rows] for c in self.cols}
        vals = np.array(self.vals if vals is None else vals, dtype=float).T.copy()
        return cls(vals, index=self.datetimes() if times is None else times, columns=cols)

    def _build_labels(self, cls, rng):
        """from a DataFrame with labels which repeat, are text or come in any order"""
        n = len(self.rows)
        labels = rng.choice([[rng.choice("ab") for _ in range(n)], rng.sample(range(n), n), ["c%d" % i for i in rng.sample(range(n), n)], list(range(5, 5 + n))])
        df = pd.DataFrame(np.array(self.vals, dtype=float).T.copy(), index=pd.Index(self.datetimes(), dtype=object))
        df.columns = labels
        return cls(df, columns={c: [r.get(c) for r in self.rows] for c in self.cols})

    def _build_filtered(self, cls, rng):
        """timeseries and time points taken out before"""
        c = self.compact()
        if len(c.rows) != len(self.rows) or len(c.times) != len(self.times):
            return None
        rows, vals = [dict(r) for r in self.rows], [list(v) for v in self.vals]
        for _ in range(rng.randint(1, 3)):
            i = rng.randint(0, len(rows))
            rows.insert(i, dict(self.rows[0], model="decoy%d" % len(rows)))
            vals.insert(i, [1.5] * len(self.times))
        f = self._plain(cls, rows, vals)
        if rng.random() < 0.5:
            return f.filter(model="decoy*", keep=False)
        f.filter(model="decoy*", keep=False, inplace=True)
        return f

    def _build_wide(self, cls, rng):
        """from a table, the index of which repeats"""
        if len(set(self.times)) != len(self.times) or self.times != sorted(self.times):
            return None
        df = pd.DataFrame({c: [r.get(c) for r in self.rows] for c in self.cols})
        for j, t in enumerate(self.datetimes()):
            df[t] = [v[j] for v in self.vals]
        df.index = rng.choice([df.index, [rng.randint(0, 1) for _ in self.rows], rng.sample(range(len(df)), len(df))])
        return cls(df)

    def _build_copied(self, cls, rng):
        f = self._plain(cls)
        return rng.choice([lambda: f.copy(), lambda: cls(f)])()

    def _build_renamed(self, cls, rng):
        c = rng.choice(REQUIRED)
        f = self._plain(cls, [dict(r, **{c: "tmp " + r[c]}) for r in self.rows])
        f.rename({c: {"tmp " + r[c]: r[c] for r in self.rows}}, inplace=True)
        return f

    def _build_assigned(self, cls, rng):
        """metadata and time set afterwards"""
        c = rng.choice(self.cols)
        f = self._plain(cls, [dict(r, **{c: i}) for i, r in enumerate(self.rows)], times=[datetime.datetime(1, 1, 1) + datetime.timedelta(days=i) for i in range(len(self.times))])
        f[c] = [r.get(c) for r in self.rows]
        f["time"] = self.datetimes()
        return f

    def _build_read(self, cls, rng):
        """looked at before"""
        f = self._plain(cls)
        f.timeseries(), f.meta, f["year"], len(f), f.head(), f.values
        f.filter(variable="*", year=2000)
        return f


def seconds(t):
    """any datetime-like -> seconds"""
    if isinstance(t, np.datetime64):
        return int(t.astype("datetime64[s]").astype("int64"))
    if isinstance(t, pd.Timestamp):
        t = t.to_pydatetime()
    return ref.to_seconds(t)


def read_table(ts):
    """wide table (as of timeseries()) -> Model"""
    names = list(ts.index.names)
    rows = []
    for k in ts.index:
        rows.append(dict(zip(names, [norm(x) for x in (k if isinstance(k, tuple) else (k,))])))
    return Model(rows, [seconds(t) for t in ts.columns], np.array(ts.values, dtype=float).tolist())


def read(o, df, what="frame"):
    """observe a frame through all its read interfaces, which have to agree"""
    meta = df.meta
    n = len(df)
    o.eq(len(meta), n, what + ": len() and meta disagree")
    tps = [seconds(t) for t in df.time_points]
    if n == 0:
        return Model([], tps, [])
    ts = df.timeseries()
    m = read_table(ts)
    o.eq(list(ts.index.names), list(meta.columns), what + ": timeseries() and meta have different columns")
    o.eq(m.times, tps, what + ": timeseries() and time_points disagree")
    o.eq([seconds(t) for t in df["time"]], tps, what + ": ['time'] and time_points disagree")
    o.eq([int(y) for y in df["year"]], [ref.from_seconds(t).year for t in tps], what + ": ['year'] and time_points disagree")
    v = df.values
    o.eq(v.shape, (n, len(tps)), what + ": values has another shape than meta and time_points")
    o.close(v, ts.values, what + ": values and timeseries() disagree", rtol=0)
    rows = [dict(zip(meta.columns, [norm(x) for x in r])) for r in meta.values.tolist()]
    o.check(
        [[typed(r[c]) for c in meta.columns] for r in rows] == [[typed(r[c]) for c in meta.columns] for r in m.rows],
        what + ": timeseries() and meta disagree", meta=rows, timeseries=m.rows,
    )
    o.eq(list(meta.columns), REQUIRED + [c for c in meta.columns if c not in REQUIRED], what + ": required metadata columns do not come first")
    return m


def close(a, b, rtol, atol):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return a == b or abs(a - b) <= atol + rtol * abs(b)


def compare(o, got, exp, msg, order=False, rtol=0.0, atol=0.0, missing_equal=True, **info):
    """two Models describe the same data; atol may be a matrix which belongs to exp.vals"""
    o.checks += 1
    cols = exp.cols if exp.rows else got.cols
    if got.rows and exp.rows and sorted(got.cols) != sorted(exp.cols):
        o.fail(msg + ": metadata columns", observed=got.cols, expected=exp.cols, **info)
    if got.times != exp.times:
        o.fail(msg + ": time points", observed=got.times, expected=exp.times, **info)
    gk, ek = got.keys(cols), exp.keys(cols)
    if sorted(gk) != sorted(ek):
        o.fail(
            msg + ": metadata", missing=[dict(k) for k in set(ek) - set(gk)], unexpected=[dict(k) for k in set(gk) - set(ek)],
            number=len(gk), expected_number=len(ek), **info
        )
    if order and gk != ek:
        o.fail(msg + ": order of the timeseries", observed=gk, expected=ek, **info)
    where = {}
    for i, k in enumerate(ek):
        where.setdefault(k, []).append(i)
    for i, k in enumerate(gk):
        # duplicated metadata: pair in order
        j = where[k].pop(0)
        for n, (t, a, b) in enumerate(zip(got.times, got.vals[i], exp.vals[j])):
            if not close(a, b, rtol, atol[j][n] if isinstance(atol, list) else atol):
                o.fail(
                    msg + ": value", timeseries=got.rows[i], time=str(ref.from_seconds(t)), observed_value=a, expected_value=b,
                    observed=got.vals[i], expected=exp.vals[j], **info
                )


def points_equal(o, got, exp, msg, rtol=0.0, **info):
    """two {(key, time): value}"""
    o.checks += 1
    if set(got) != set(exp):
        lost = sorted(set(exp) - set(got))[:3]
        extra = sorted(set(got) - set(exp))[:3]
        o.fail(msg + ": points lost or invented", lost=lost, invented=extra, observed_number=len(got), expected_number=len(exp), **info)
    for k in exp:
        if not close(got[k], exp[k], rtol, 0.0):
            o.fail(msg + ": value of a point", point=k, observed=got[k], expected=exp[k], **info)


# ------------------------------------------------------------- generators ----------
VARIABLES = [
    "Emissions|CO2", "Emissions|CO2|Fossil", "Emissions|CO2|AFOLU", "Emissions|CH4", "Surface Temperature", "Radiative Forcing", "Radiative Forcing|CO2",
    "Atmospheric Concentrations|CO2", "Primary Energy", "Primary Energy|Coal", "Heat Uptake", "Emissions|HFC4310mee", "Primary Energy|Coal|w/o CCS",
    "Price (2005)", "a.b", "a+b", "x", "Diagnostics|[x]",
]
REGIONS = ["World", "World|R5ASIA", "World|R5ASIA|China", "World|NH", "R5LAM", "a_region", "Bunkers"]
MODELS = ["a_model", "a_iam", "MESSAGE", "unspecified", "AIM/CGE 2.0"]
SCENARIOS = ["a_scenario", "a_scenario2", "RCP2.6", "SSP1-19", "ssp*", "(h)"]
UNITS = {"K": "temperature", "GtC/a": "emissions", "MtCO2/yr": "emissions", "W/m^2": "forcing", "EJ/yr": "energy", "ppm": "concentration", "GtC": "mass"}
EXTRA = {
    "climate_model": ["MAGICC6", "a_model", "unspecified", "FaIR"],
    "ecs": [1.5, 2.0, 3.25, 4.5, 0.1],
    "run": [0, 1, 2, 3, 10, -999],
    "stage": ["init", "final", "-999", "nan"],
    "todo": ["", "x", "World", "None"],
    "depth (m)": [0.5, 1.0, 273.15],
    "model_version": ["v1", "v2", "unspecified"],
    "run, no": ["one", "2,5x", "x"],
    "run_id": ["r1", "r2", "r10"],
}


def times(rng, n=None, unique=True):
    style = rng.choice(["annual", "annual", "decadal", "monthly", "irregular", "seconds", "wide", "equal"])
    n = n or rng.choice([1, 2, 3, 4, 6, 9, 12])
    return gen.axis(rng, n=gen.many(rng, n), style=style)


def matrix(rng, rows, cols, nan=0.0):
    out = []
    for _ in range(rows):
        v = gen.values(rng, cols)
        if nan:
            v = [float("nan") if rng.random() < nan else x for x in v]
        out.append(v)
    return out


def metadata(rng, n, extra=None, missing=0.0, variables=None, units=None, regions=None, allow_units=None):
    """n different metadata rows"""
    n = gen.many(rng, n)
    names = rng.sample(sorted(EXTRA), rng.choice([0, 0, 1, 1, 2, 3])) if extra is None else list(extra)
    constant = {c for c in REQUIRED + names if rng.random() < 0.4}
    fixed = {
        "model": rng.choice(MODELS), "scenario": rng.choice(SCENARIOS), "region": rng.choice(regions or REGIONS),
        "variable": rng.choice(variables or VARIABLES), "unit": rng.choice(sorted(units or UNITS)),
    }
    for c in names:
        fixed[c] = rng.choice(EXTRA[c])
    rows, seen = [], set()
    for tries in range(1000):
        if len(rows) == n:
            break
        r = {
            "model": rng.choice(MODELS), "scenario": rng.choice(SCENARIOS), "region": rng.choice(regions or REGIONS),
            "variable": rng.choice(variables or VARIABLES), "unit": rng.choice(sorted(units or UNITS)),
        }
        for c in names:
            r[c] = None if rng.random() < missing else rng.choice(EXTRA[c])
        for c in constant:
            if tries < 50:
                r[c] = fixed[c]
        k = tuple(sorted((c, typed(x)) for c, x in r.items()))
        if k in seen:
            continue
        seen.add(k)
        rows.append(r)
    return rows


def model(rng, n=None, times_=None, nan=None, missing=None, **kw):
    n = n or rng.choice([1, 2, 3, 3, 4, 5, 7])
    nan = rng.choice([0, 0, 0.2, 0.5]) if nan is None else nan
    missing = rng.choice([0, 0, 0.4]) if missing is None else missing
    ts = times_ if times_ is not None else times(rng)
    rows = metadata(rng, n, missing=missing, **kw)
    vals = matrix(rng, len(rows), len(ts), nan)
    for v in vals:  # no timeseries without any value
        if all(math.isnan(x) for x in v):
            v[rng.randrange(len(v))] = rng.gauss(0, 10)
    return Model(rows, ts, vals)


# ------------------------------------------------------------- operations ----------
UNIT = {u.name: (fam, u) for fam, us in ref.FAMILIES.items() for u in us if u.name not in ("", "dimensionless")}
"""unit name -> (dimension, definition)"""
AVERAGE = {"emissions", "forcing", "energy_rate"}
"""dimensions which involve time"""


def kind(row):
    """average or point, as given or by its unit"""
    given = row.get("parameter_type")
    if norm(given) is not None:
        return given
    return "average" if UNIT[row["unit"]][0] in AVERAGE else "point"


def extended(ts):
    return list(ts) + [2 * ts[-1] - ts[-2]]


def interpolated(m, target, extrapolation="constant", kinds=None):
    """-> (Model, matrix of tolerances)"""
    from .tsmodel import conv_tol

    rows, vals, tol = [], [], []
    for i, (r, v) in enumerate(zip(m.rows, m.vals)):
        k = kinds[i] if kinds else kind(r)
        if k == "average":
            src, tgt = extended(m.times), extended(target)
        else:
            src, tgt = m.times, target
        x = ref.convert(k, src, v, tgt, extrapolation)
        rows.append(dict(r, parameter_type=k))
        vals.append(x)
        a = conv_tol(k, src, v, tgt, extrapolation)
        tol.append([a + 1e-9 * abs(y) + 1e-300 for y in x])
    return Model(rows, target, vals), tol


def converted(m, which, target, context=None):
    """rows `which` converted into the unit named target -> (Model, matrix of tolerances)"""
    out, tol = m.copy(), [[0.0] * len(m.times) for _ in m.rows]
    b = UNIT[target][1]
    for r in out.rows:
        r.setdefault("unit_context", None)
    for i in which:
        a = UNIT[m.rows[i]["unit"]][1]
        out.vals[i] = [ref.uconv(x, a, b) for x in m.vals[i]]
        tol[i] = [0.0 if math.isnan(x) else ref.utol(x, a, b, a) for x in m.vals[i]]
        out.rows[i]["unit"] = target
        out.rows[i]["unit_context"] = context
    return out, tol
