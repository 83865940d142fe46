"""
A fixed battery of operations whose complete results are turned into text.

    python -m mon.battery < request.json

Items are functions of (rng) only; the images hold values bit by bit, metadata, order of
rows and columns, so two runs can be compared exactly whatever their configuration.
"""
import csv
import datetime
import hashlib
import io
import json
import os
import random
import sys
import tempfile
import time
import warnings

import numpy as np
import pandas as pd

from mon import gen, ref, scm, scmops


class Quiet:
    """observer which records nothing"""

    def __getattr__(self, name):
        return lambda *a, **k: None

    def eq(self, a, b, msg, **info):
        if a != b:
            raise AssertionError(msg)

    def check(self, cond, msg, **info):
        if not cond:
            raise AssertionError(msg)


O = Quiet()


def text(x):
    """everything visible of a result"""
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return repr(scmops.frozen(x))
    if hasattr(x, "time_points") and hasattr(x, "meta"):
        return repr((scmops.frozen(x), list(x.meta.columns), [str(d) for d in x.meta.dtypes], list(map(repr, x["time"]))))
    if isinstance(x, (list, tuple)):
        return repr([text(y) for y in x])
    if isinstance(x, dict):
        return repr([(k, text(v)) for k, v in x.items()])
    if isinstance(x, np.ndarray):
        return repr((str(x.dtype), x.tolist()))
    return repr(x)


def attempt(f, *a, **k):
    try:
        return f(*a, **k)
    except Exception as e:  # noqa
        return (type(e).__name__, str(e)[:200])


def start(rng):
    return scmops.start(rng, n=rng.randint(1, 6))


# --------------------------------------------------------------------------- items -----
def tables(rng):
    """frames from tables with many extra columns"""
    m = start(rng)
    from openscm.scmdataframe import ScmDataFrame

    f = m.build()
    wide = f.timeseries().reset_index()
    cols = [c for c in wide.columns]
    rng.shuffle(cols)
    out = [f, ScmDataFrame(wide[cols])]
    long = pd.DataFrame([
        dict(r, time=d, value=x) for r, v in zip(m.rows, m.vals) for d, x in zip(m.datetimes(), v) if x == x
    ])
    cols = list(long.columns)
    rng.shuffle(cols)
    out.append(ScmDataFrame(long[cols]))
    return out


def appended(rng):
    from openscm.scmdataframe import df_append

    frames = []
    for i in range(rng.randint(2, 4)):
        m = start(rng)
        for r in m.rows:
            for c in rng.sample(["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta"], rng.randint(0, 4)):
                r[c] = rng.choice(["a", "b", 1, 2.5])
        if m.unique():
            frames.append(m.build())
    res = attempt(df_append, frames, duplicate_msg=False)
    return [res, attempt(frames[0].append, frames[-1], duplicate_msg=False)]


def history(rng):
    m = start(rng)
    f = m.build()
    out = []
    for _ in range(4):
        op = scmops.random_op(rng, m)
        if op.run and (op.inplace is None or rng.random() < 0.5):
            f = op.run(f)
        else:
            op.inplace(f)
        out.append(text(f))
        m = scm.read(O, f)
    return out


def statistics(rng):
    m = start(rng)
    f = m.build()
    over = rng.sample(m.cols, rng.randint(1, 2))
    ys = sorted({d.year for d in m.datetimes()})
    return [attempt(f.process_over, over, rng.choice(["mean", "median", "quantile"])), attempt(f.relative_to_ref_period_mean, year=ys[:2])]


def grids(rng):
    m = scmops.start(rng, n=3, nan=0, times=[gen.year_start(1960 + 3 * i) for i in range(5)])
    f = m.build()
    return [attempt(f.resample, rng.choice(["AS", "A", "QS", "MS", "W", "10D", "AS-JUL"])), attempt(f.interpolate, [datetime.datetime(1960, 3, 31, 2, 30), datetime.datetime(1965, 10, 31, 1, 30)])]


def units(rng):
    from openscm.core.units import UnitConverter

    out = []
    for _ in range(6):
        a, b = rng.choice(ref.FAMILIES[rng.choice(sorted(ref.FAMILIES))]).name, rng.choice(ref.FAMILIES[rng.choice(sorted(ref.FAMILIES))]).name
        c = attempt(UnitConverter, a, b)
        out.append(c if isinstance(c, tuple) else (c.convert_from(1.5), c.convert_to(-3.25), c.contexts))
    for c in [None, "AR4GWP100", "AR5GWP100"]:
        u = attempt(UnitConverter, rng.choice(["Mt CH4 / yr", "kt SF6 / yr", "g N2O / d", "t HFC4310mee"]), rng.choice(["Gt C / yr", "Mt CO2 / yr", "t CO2"]), c)
        out.append(u if isinstance(u, tuple) else (u.convert_from(2.0),))
    return out


def instants(rng):
    from openscm.core.time import create_time_points
    from openscm.core.parameters import ParameterType
    from openscm.scmdataframe import ScmDataFrame
    from openscm.scmdataframe.offsets import generate_range, to_offset

    a = datetime.datetime(rng.randint(1500, 2500), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59))
    b = a + datetime.timedelta(days=rng.randint(1, 900))
    out = [[str(t) for t in generate_range(a, b, to_offset(rule))] for rule in ["MS", "W", "A-JUN", "30D", "QS"]]
    out.append([t for t in create_time_points(np.datetime64(a), np.timedelta64(rng.randint(1, 10 ** 8), "s"), 4, ParameterType.AVERAGE_TIMESERIES)])
    words = [x.strftime("%d/%m/%Y %H:%M") if rng.random() < 0.5 else str(x) for x in (a, b)]
    f = attempt(lambda: ScmDataFrame(np.array([[1.0], [2.0]]), index=words, columns={c: ["x"] for c in scm.REQUIRED}))
    out.append(f)
    if not isinstance(f, tuple):
        out += [attempt(f.filter, month=["Jan-Jul"]), attempt(f.filter, day=["Mon", "Tue", "Wed"]), attempt(f.filter, hour=list(range(12))), list(f["year"])]
    return out


def guesses(rng):
    """types of timeseries whose unit is not known, which is up to their names"""
    from openscm.scmdataframe.parameter_type import guess_parameter_type
    from openscm.scmdataframe import ScmDataFrame

    units = rng.sample(["people", "USD", "index", "no unit", "%", "W m-2", "Mt XYZ/yr"], 2)
    names = rng.sample(["Emissions|CO2", "Heat Flux", "CO2_RF", "Surface Temperature", "GDP", "Population", "X_CONC"], 4)
    out = [repr(guess_parameter_type(n, u)) for u in units for n in names]
    f = ScmDataFrame(np.arange(12.0).reshape(3, 4), index=[2000, 2001, 2002], columns=dict(
        {c: ["x"] for c in ("model", "scenario", "region")}, variable=names, unit=[rng.choice(units) for _ in names]))
    return out + [attempt(f.interpolate, [datetime.datetime(2000, 1, 1), datetime.datetime(2001, 7, 1), datetime.datetime(2002, 1, 1)])]


def years(rng):
    """times given as years, also with fractions and long ago"""
    from openscm.core.time import TimePoints
    from openscm.scmdataframe import ScmDataFrame

    ys = sorted(rng.choice([rng.uniform(1700, 2300), rng.uniform(1870, 1950), rng.randint(1880, 2050) + rng.randrange(16) / 16]) for _ in range(6))
    out = [attempt(lambda: TimePoints(np.array(ys)).values.tolist())]
    for index in (ys, [int(y) for y in ys], ["%d" % y for y in ys]):
        index = list(dict.fromkeys(index))
        f = attempt(lambda: ScmDataFrame(np.arange(1.0 * len(index)).reshape(-1, 1), index=index, columns={c: ["x"] for c in scm.REQUIRED}))
        out.append(f)
        if not isinstance(f, tuple):
            out.append([list(f["year"]), attempt(f.filter, year=[int(ys[0]), int(ys[2])]), attempt(f.filter, month=1)])
    return out


def sets(rng):
    from openscm.scmdataframe import convert_openscm_to_scmdataframe
    from openscm.core.parameterset import ParameterSet

    ts = [gen.year_start(2000 + i) for i in range(5)]
    p = ParameterSet()
    names = ["Emissions|CO2|x", "Emissions|CO2|y", "Emissions|CH4", "T", "F|a|b", "F|a|c"]
    rng.shuffle(names)
    for nm in names:
        p.timeseries(nm, "K", gen.as_dt64(ts), region=rng.choice(["World", "World|A", "World|A|B", "World|C"])).values = gen.values(rng, 5)
    p.generic("note").value = "n"
    p.scalar("ECS", "K").value = 3
    g = convert_openscm_to_scmdataframe(p, gen.as_dt64(ts[:4]))
    total = attempt(lambda: list(p.timeseries("Emissions|CO2", "mK", gen.as_dt64(ts)).values))
    return [g, total]


def files(rng):
    from openscm.scmdataframe import ScmDataFrame

    m = scmops.start(rng, n=4, nan=0, times=[gen.year_start(1990) + i * 3600 for i in range(4)])
    for r in m.rows:
        for c in list(r):
            if r[c] is None or r[c] in ("", "nan", "None", "-999"):
                r[c] = "filled"
    if not m.unique():
        return []
    f = m.build()
    d = tempfile.mkdtemp(prefix="verif-battery-")
    try:
        path = os.path.join(d, "x.csv")
        f.to_csv(path)
        with open(path, "rb") as fh:
            raw = fh.read().decode("utf-8")
        # pyam decides on the order of rows and columns
        table = list(csv.reader(io.StringIO(raw)))
        cells = sorted(sorted(zip(table[0], line)) for line in table[1:])
        g = scm.read(O, ScmDataFrame(path))
        data = f.to_iamdataframe().data
        lists = {c: list(data[c]) for c in data.columns}
        return [cells, sorted(zip(map(repr, g.keys()), g.vals)), sorted(repr([(c, lists[c][i]) for c in sorted(lists)]) for i in range(len(data)))]
    finally:
        os.unlink(os.path.join(d, "x.csv"))
        os.rmdir(d)


def model(rng):
    from openscm import OpenSCM

    y = rng.randint(1900, 2100)
    n = rng.randint(4, 12)
    s = OpenSCM("DICE")
    s.parameters.generic("Start Time").value = np.datetime64("%d-01-01" % y)
    s.parameters.generic("Stop Time").value = np.datetime64("%d-01-01" % (y + n))
    ts = [gen.year_start(y + i) for i in range(n + 6)]
    s.parameters.timeseries(("Emissions", "CO2"), "GtCO2/a", gen.as_dt64(ts), timeseries_type="average").values = gen.values(rng, n + 5)
    s.run()
    tp = gen.as_dt64([gen.year_start(y) + i * 365 * gen.DAY for i in range(n)])
    out = [list(s.output.timeseries(v, u, tp).values) for v, u in ((("Pool", "CO2", "Atmosphere"), "GtC"), (("Surface Temperature", "Increase"), "delta_degC"), (("Ocean Temperature", "Increase"), "delta_degC"))]
    s.reset_stepping()
    out.append([str(s.step()) for _ in range(3)])
    return out


def scenarios(rng):
    from openscm.scenarios import rcps

    one = rcps.filter(scenario="RCP45", variable="Emissions|CO2*")
    return [rcps, one, attempt(one.convert_unit, "Mt CO2 / yr", variable="Emissions|CO2*")]


ITEMS = {f.__name__: f for f in (tables, appended, history, statistics, grids, units, instants, guesses, years, sets, files, model, scenarios)}


def run(plan):
    """[(item, seed)] -> {(item, seed): (digest, beginning of the image)}"""
    out = {}
    for name, seed in plan:
        rng = random.Random("{}/{}".format(name, seed))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            t = text(ITEMS[name](rng))
        out["{}/{}".format(name, seed)] = (hashlib.sha256(t.encode("utf-8", "backslashreplace")).hexdigest(), t[:3000])
    return out


def noise(seed, n=12):
    """earlier use of the library, also failing"""
    rng = random.Random(seed)
    names = sorted(ITEMS)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for _ in range(n):
            k = rng.randrange(4)
            if k == 0:
                from openscm.core.units import UnitConverter

                attempt(UnitConverter, "t CH4", "t CO2", "AR4GWP100")
                attempt(UnitConverter, "t CH4", "t CO2", "no context")
                attempt(UnitConverter, "nounit", "K")
            elif k == 1:
                from openscm import OpenSCM

                attempt(OpenSCM, "no model")
                s = OpenSCM("DICE")
                attempt(s.run)
            elif k == 2:
                f = start(rng).build()
                attempt(f.convert_unit, "nounit", inplace=True)
                attempt(f.filter, nothing=1)
                attempt(f.append, 5)
                attempt(f.set_meta, [1, 2, 3, 4, 5, 6, 7, 8], "x")
            else:
                name = rng.choice(names)
                if name != "scenarios":
                    attempt(ITEMS[name], random.Random(rng.random()))


def main():
    req = json.load(sys.stdin)
    if req.get("locale"):
        import locale

        attempt(locale.setlocale, locale.LC_ALL, "")
    if req.get("noise"):
        noise(req["noise"])
    res = run(req["plan"])
    import openscm

    print(json.dumps({"file": openscm.__file__, "tz": time.tzname, "hash": hash("openscm"), "results": res}))


if __name__ == "__main__":
    main()
