import numpy as np

from openscm import OpenSCM
from openscm.core.parameterset import ParameterSet
from openscm.errors import InsufficientDataError, ParameterEmptyError

from mon import dice, gen, ref
from mon.core import Family, Violation
from mon.dice import OUTPUTS, Poison

RULE = (
    "a case is one OpenSCM instance taken through a random history of run / reset_stepping / step / reading / input changes / failing runs, under the uninitialised-memory sanitizer; after every "
    "operation the outputs are compared with those of a fresh instance with the same inputs; non-trivial: at least one re-run and a partial stepping"
)
COVER = [
    "run", "run again", "stepped to the end", "stepped partly", "reset after partial stepping", "run after partial stepping", "run right after reset", "prefix equals full run", "rerun bitwise equal", "stepping bitwise equal",
    "emissions changed", "parameter changed", "parameter changed while stepping", "saturation changed", "rounding changed", "emissions changed in other unit", "emissions changed through old handle", "stepping after change", "run after change",
    "read while stepping", "read while stepping via other units", "run without emissions fails", "run without stop time fails", "run after failure", "recovered", "step times", "sanitizer active", "old output view sees new run",
    "before 1677", "after 2262", "sub-daily period", "one instance, many runs", "outputs only by stepping", "time_frame",
]
ASSUMPTIONS = ["start time, stop time and period length are set before the first run (see the known finding for changes afterwards)", "outputs are compared up to rounding of the read-through conversion; repetitions of the same computation bit by bit"]
TECHNIQUE = "uninitialised-memory sanitizer (poisoned np.empty) and a history monitor comparing every intermediate output with fresh instances"


def seconds(t):
    t = np.datetime64(t)
    s = t.astype("datetime64[s]")
    return int((s - np.datetime64("1970-01-01T00:00:00", "s")).astype(int)) if s == t else t


def fresh_outputs(o, rng, c):
    p = ParameterSet()
    dice.supply(rng, p, c, plain=True)
    s = OpenSCM("DICE", p)
    s.run()
    return read(s, c)


def read(s, c):
    out = {}
    for k, (name, unit, kind) in OUTPUTS.items():
        tp = gen.as_dt64(c.grid(1) if kind == "average" else c.grid())
        out[k] = np.array(s.output.timeseries(name, unit, tp, timeseries_type=kind).values, dtype=float)
    return out


def same(o, a, b, msg, **info):
    for k in a:
        o.check(a[k].shape == b[k].shape and a[k].tobytes() == b[k].tobytes(), msg + " (bitwise): " + k, observed=a[k].tolist(), expected=b[k].tolist(), **info)


def history(rng, o):
    c = dice.config(rng, wild=rng.random() < 0.5, max_n=rng.choice([4, 8, 15, 30]))
    p = ParameterSet()
    late = rng.choice([None, None, None, "emissions", "stop"])
    if late == "emissions":  # the model is the first to ask for the emissions, so it decides about their time axis
        c.emissions, c.axis = [rng.uniform(0, 20) for _ in range(c.n)], c.grid(1)
    handle = dice.supply(rng, p, c, emissions=late != "emissions")
    if late == "stop":
        p = ParameterSet()
        p.generic("Start Time").value = dice.instant(rng, c.start)
        if "period_length" in c.also:
            p.generic(("DICE", "period_length")).value = dice.span(rng, c.period)
    s = OpenSCM("DICE", p)
    poison = rng.choice([float("nan"), float("nan"), 1e300, -1e12, None])
    grid = c.grid()
    if ref.from_seconds(grid[0]).year < 1677:
        o.cover("before 1677")
    if ref.from_seconds(grid[-1]).year > 2262:
        o.cover("after 2262")
    if c.period % 86400:
        o.cover("sub-daily period")
    sanitizer = Poison(poison) if poison is not None else None
    if sanitizer:
        sanitizer.__enter__()
    try:
        if late:
            for _ in range(rng.randint(1, 2)):
                if late == "emissions":
                    if rng.random() < 0.5:
                        o.raises(ParameterEmptyError, "run without emissions", s.run)
                    else:
                        s.reset_stepping()
                        o.raises(ParameterEmptyError, "step without emissions", s.step)
                    o.cover("run without emissions fails")
                else:
                    o.raises(ParameterEmptyError, "run without stop time", s.run)
                    o.cover("run without stop time fails")
            if late == "emissions":
                handle = dice.set_emissions(rng, p, c)
            else:
                handle = dice.supply(rng, p, c)
        steps(rng, o, s, p, c, handle, late)
    finally:
        if sanitizer:
            sanitizer.__exit__()
            o.cover("sanitizer active")
            o.events["poisoned allocation"] += sanitizer.count


def change(rng, o, p, c, handle):
    """change an input of the configuration and of the parameter set in the same way -> description"""
    k = rng.choice(["emissions", "emissions", "param", "param", "saturation", "rounding"])
    if k == "emissions":
        size = rng.choice([1, 10, 40])
        em = [rng.uniform(-size / 4, size) for _ in c.emissions]
        style = rng.choice(["handle", "element", "view", "view"])
        handle, u = handle
        if style == "handle":
            handle.values = [ref.uconv(x, dice.GTC, u) for x in em]
            o.cover("emissions changed through old handle")
        elif style == "element":
            i = rng.randrange(len(em))
            em = c.emissions[:i] + [em[i]] + c.emissions[i + 1 :]
            handle.values[i] = ref.uconv(em[i], dice.GTC, u)
            o.cover("emissions changed through old handle")
        else:
            dice.set_emissions(rng, p, c, values=em)
            o.cover("emissions changed in other unit")
        c.emissions = em
        o.cover("emissions changed")
    elif k == "param":
        name = rng.choice(sorted(dice.DEFAULTS))
        v = dice.DEFAULTS[name][0] * rng.uniform(0.6, 1.5)
        dice.set_param(rng, p, name, v)
        c.params[name] = v
        c.given[name] = v
        o.cover("parameter changed")
    elif k == "saturation":
        c.saturation = c.start + rng.randrange(1, 2 * c.n) * c.period + rng.choice([0, 0, 1])
        p.generic(("DICE", "forcoth_saturation_time")).value = dice.instant(rng, c.saturation)
        c.also.add("forcoth_saturation_time")
        o.cover("saturation changed")
    else:
        c.rounding = not c.rounding
        p.generic(("DICE", "original_rounding")).value = c.rounding
        c.also.add("original_rounding")
        o.cover("rounding changed")
    o.event("change", "{} {}".format(k, locals().get("style")))
    return k


def steps(rng, o, s, p, c, handle, failed):
    expect = fresh_outputs(o, rng, c)
    tol = dice.tolerances(expect, c)
    at, full, last = None, None, None  # position when stepping (None: not), bitwise results of the current inputs
    runs = partial = 0
    changed = False
    view = None
    stepped_only = True

    def compare(n, msg):
        got = read(s, c)
        for k in expect:
            o.close(got[k][:n], expect[k][:n], msg + ": " + k, rtol=0, atol=tol[k], steps=n - 1, of=c.n, given=c.given)
        return got

    def complete(msg):
        nonlocal full, view, failed, changed
        got = compare(c.n, msg)
        if full is not None:
            same(o, got, full, "same inputs, different outputs, " + msg)
            o.cover("rerun bitwise equal" if msg == "run" else "stepping bitwise equal")
        full = got
        if view is not None:
            o.close(view.values, got["mat"], "view made before the run", rtol=0, atol=tol["mat"])
            o.cover("old output view sees new run")
        elif rng.random() < 0.5:
            view = s.output.timeseries(OUTPUTS["mat"][0], "GtC", gen.as_dt64(c.grid()), timeseries_type="point")
            view.values
        if failed:
            o.cover("run after failure")
            o.cover("recovered")
            failed = None
        if changed:
            o.cover("run after change" if msg == "run" else "stepping after change")
            changed = False

    for _ in range(gen.many(rng, rng.randint(3, 8))):
        kind = rng.choice(["run", "run", "steps", "steps", "steps", "change", "reset"])
        if kind == "run":
            if at is not None:
                o.cover("run after partial stepping" if 0 < at < c.n - 1 else "run right after reset" if at == 0 else "run")
            o.returns("run", s.run)
            runs += 1
            stepped_only = False
            o.cover("run" if runs == 1 else "run again")
            if runs >= 3:
                o.cover("one instance, many runs")
            complete("run")
            at = None
        elif kind == "reset":
            if at and at < c.n - 1:
                o.cover("reset after partial stepping")
            o.returns("reset_stepping", s.reset_stepping)
            at = 0
            if rng.random() < 0.5:
                compare(1, "initial values")
        elif kind == "change":
            if at:
                o.cover("parameter changed while stepping")
            change(rng, o, p, c, handle)
            expect = fresh_outputs(o, rng, c)
            tol = dice.tolerances(expect, c)
            full, changed = None, True
            at = None  # must reset first
        else:
            if at is None:
                o.returns("reset_stepping", s.reset_stepping)
                at = 0
            todo = rng.choice([c.n - 1 - at, rng.randint(0, c.n - 1 - at)])
            o.event("steps", "{} of {}", todo, c.n - 1)
            for _ in range(todo):
                now = o.returns("step", s.step)
                at += 1
                o.eq(seconds(now), c.start + at * c.period, "time returned by step()", step=at)
                o.cover("step times")
                if rng.random() < 0.2:
                    compare(at + 1, "outputs while stepping and full run")
                    o.cover("prefix equals full run")
                    o.cover("read while stepping")
                if rng.random() < 0.05:
                    w = s.output.timeseries(OUTPUTS["tatm"][0], "mK", gen.as_dt64(c.grid()), timeseries_type="point").values
                    o.close(w[: at + 1] / 1000, expect["tatm"][: at + 1], "output in other unit while stepping", rtol=0, atol=2 * tol["tatm"])
                    o.cover("read while stepping via other units")
            if at == c.n - 1:
                o.cover("stepped to the end")
                if stepped_only:
                    o.cover("outputs only by stepping")
                complete("stepping")
            else:
                partial += 1
                o.cover("stepped partly")
                compare(at + 1, "outputs while stepping and full run")
                o.cover("prefix equals full run")
    if runs >= 2 and partial:
        o.nontrivial()
    o.state(runs, partial, c.n)


def time_frame(rng, o):
    """known finding: the outputs keep the time axis of the first run"""
    o.cover("time_frame")
    start = gen.year_start(2010)

    def one(stop_years, s=None):
        p = s.parameters if s else ParameterSet()
        p.generic("Start Time").value = gen.as_dt64([start], "D")[0]
        p.generic("Stop Time").value = gen.as_dt64([start + stop_years * dice.YEAR], "D")[0]
        if s is None:
            p.timeseries(("Emissions", "CO2"), "GtC/a", gen.as_dt64([start + i * dice.YEAR for i in range(31)]), timeseries_type="average").values = [10.0] * 30
            s = OpenSCM("DICE", p)
        s.run()
        tp = gen.as_dt64([start + i * dice.YEAR for i in range(stop_years + 1)])
        return s, s.output.timeseries(OUTPUTS["mat"][0], "GtC", tp, timeseries_type="point").values

    s, _ = one(10)
    try:
        got = one(20, s)[1]
    except InsufficientDataError:
        raise Violation("run() with a later stop time than before raises InsufficientDataError", key="M01-later-stop-time")
    o.close(got, one(20)[1], "outputs after running again with a later stop time", rtol=1e-6)


FAMILIES = [Family("history", history, 750, 9000), Family("time_frame", time_frame, 1, 1)]
FAMILIES += [
    Family("long history", gen.large(history), 18, 300),
]
