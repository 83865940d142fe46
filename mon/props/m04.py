import gc
import re
import sys
from unittest.mock import patch

import numpy as np

import openscm.adapters
from openscm import OpenSCM
from openscm.adapters import Adapter, load_adapter
from openscm.adapters.dice import DICE
from openscm.core.parameterset import ParameterSet
from openscm.errors import AdapterNeedsModuleError, ParameterEmptyError

from mon import dice, gen
from mon.core import Family

RULE = (
    "lifecycle: a recording adapter (or DICE with recording hooks) is driven through OpenSCM or directly by a random sequence of calls with failures injected into random hooks; the recorded "
    "events must be accepted by the lifecycle automaton; registry: random sequences of load_adapter calls with missing modules injected; non-trivial: at least 5 driver calls / one failing load"
)
COVER = [
    "run", "reset_stepping", "step", "step without reset", "run twice", "deleted unused", "deleted after use", "deleted after failure", "several adapters", "DICE hooks", "direct calls", "run parameters first", "model input first",
    "no start time", "start time changed", "current time at reset", "step returns the model's time", "KeyError for unknown names", "missing module", "recovered from missing module", "same class", "loaded before the module went missing",
    "missing dependency of the module", "abstract hook missing", "parameter sets reach the adapter", "default parameter sets are fresh",
] + ["failure in " + h for h in ("init", "inputs", "runpar", "reset", "run", "step")] + ["OpenSCM with unknown model", "OpenSCM with missing module"]
ASSUMPTIONS = ["adapters are made known to load_adapter in the way the existing tests do (openscm.adapters._loaded_adapters)", "CPython reference counting decides about the end of an adapter's life"]
TECHNIQUE = "online lifecycle automaton over the recorded hook events of instrumented adapters, with fault injection"


class Injected(Exception):
    pass


class Automaton:
    """accepts the documented order of hook calls of one adapter"""

    def __init__(self, o):
        self.o, self.events, self.expected = o, [], []
        self.initialised = self.shut = False
        self.fail_next = None
        self.expected_time = None

    def hook(self, name, adapter):
        self.o.event("hook", name)
        self.events.append(name)
        self.o.checks += 1
        if self.shut:
            self.problem = "{} after shutdown".format(name)
        if name == "init" and self.initialised:
            self.problem = "model initialised twice"
        if name not in ("init", "shutdown") and not self.initialised and not (name in ("step", "run", "reset") and self.raw):
            self.problem = "{} before the model was initialised".format(name)
        if name == "shutdown":
            self.shut = True
            return
        if name == "reset" and self.expected_time is not None:
            self.time_at_reset = adapter._current_time
        if self.fail_next == name:
            self.fail_next = None
            raise Injected(name)
        if name == "init":
            self.initialised = True

    problem = None
    raw = False  # driver calls a hook's method directly without initialisation
    time_at_reset = None

    def begin(self):
        self.events.clear()
        self.time_at_reset = None

    def settle(self, expected, label):
        if self.problem:
            self.o.fail("lifecycle: " + self.problem, during=label)
        self.o.eq(list(self.events), expected, "hooks called by " + label)


def recorder(auto, base):
    def hook(name):
        def f(self):
            auto.hook(name, self)
            if base is not Adapter:
                getattr(base, METHODS[name])(self)
            elif name == "step":
                self._current_time = auto.next_time

        return f

    return type("Recording", (base,), {m: hook(n) for n, m in METHODS.items()})


METHODS = {"init": "_initialize_model", "inputs": "_initialize_model_input", "runpar": "_initialize_run_parameters", "reset": "_reset", "run": "_run", "step": "_step", "shutdown": "_shutdown"}


def expected_events(auto, ops, fail, start):
    """-> events, does it fail with the injected error"""
    out = []
    inited = auto.initialised
    for op in ops:
        if op in ("inputs", "runpar") and not inited:
            out.append("init")
            if fail == "init":
                return out, Injected
            inited = True
        if op == "reset" and not start:
            return out, ParameterEmptyError
        out.append(op)
        if fail == op:
            return out, Injected
    return out, None


OPS = {"reset_stepping": ["inputs", "runpar", "reset"], "run": ["inputs", "runpar", "reset", "run"], "step": ["step"]}


class Driver:
    def __init__(self, rng, o, use_dice):
        self.rng, self.o, self.use_dice = rng, o, use_dice
        self.auto = Automaton(o)
        self.auto.expected_time = True
        cls = recorder(self.auto, DICE if use_dice else Adapter)
        self.p = ParameterSet()
        self.start = None
        self.calls = 0
        self.failed = self.used = False
        self.model_reset = False
        given_in, given_out = rng.random() < 0.7 or use_dice, rng.random() < 0.5
        out = ParameterSet() if given_out else None
        with patch.dict(openscm.adapters._loaded_adapters, {"Recording": cls}):
            self.s = o.returns("OpenSCM", OpenSCM, "Recording", self.p if given_in else None, out)
        self.p = self.s.parameters
        o.eq(self.auto.events, [], "hooks called by the constructor")
        adapter = self.s._model
        o.check(adapter._parameters is self.s.parameters and adapter._output is self.s.output, "the adapter got other parameter sets")
        if given_out:
            o.check(self.s.output is out, "another output set than given")
            o.cover("parameter sets reach the adapter")
        o.check(self.s.output is not self.s.parameters, "one set for inputs and outputs")
        o.eq(self.s.model, "Recording", "name of the model")
        if use_dice:
            c = dice.config(rng, wild=False, max_n=6)
            self.c = c
            dice.supply(rng, self.p, c)
            self.start = c.start

    def set_start(self):
        t = gen.year_start(self.rng.randint(1800, 2200))
        self.p.generic("Start Time").value = dice.instant(self.rng, t)
        if self.start is not None:
            self.o.cover("start time changed")
        self.start = t

    def act(self):
        rng, o, auto = self.rng, self.o, self.auto
        self.calls += 1
        if not self.use_dice and rng.random() < 0.25:
            self.set_start()
        direct = rng.random() < 0.25
        if direct:
            label = rng.choice(["initialize_model_input", "initialize_run_parameters", "reset", "run", "step"])
            ops = [{"initialize_model_input": "inputs", "initialize_run_parameters": "runpar"}.get(label, label)]
            if self.use_dice and (label in ("run", "step", "reset") and not self.model_reset):
                return
            if label in ("initialize_model_input", "initialize_run_parameters") and not auto.initialised:
                o.cover("model input first" if ops == ["inputs"] else "run parameters first")
            target = getattr(self.s._model, label)
            o.cover("direct calls")
        else:
            label = rng.choice(["reset_stepping", "run", "step", "step"])
            ops = OPS[label]
            if self.use_dice and label == "step" and not self.model_reset:
                return
            target = getattr(self.s, label)
            o.cover(label)
        if self.use_dice and ops == ["step"] or self.use_dice and ops == ["run"]:
            if self.left <= 0 or ops == ["run"] and self.left < self.c.n - 1:
                return
        if ops == ["step"] and not self.model_reset:
            o.cover("step without reset")
        if label == "run" and self.used:
            o.cover("run twice")
        auto.raw = direct or label == "step"
        fail = rng.choice([None] * 4 + ["init", "inputs", "runpar", "reset", "run", "step"])
        will = "init" if fail == "init" and not auto.initialised and ("inputs" in ops or "runpar" in ops) else fail if fail in ops else None
        auto.fail_next = will
        auto.next_time = dice.instant(rng, gen.year_start(rng.randint(1800, 2200)))
        auto.begin()
        events, error = expected_events(auto, ops, will, self.start is not None)
        if error is not Injected:
            auto.fail_next = None
        if error:
            e = o.raises(error, label, target)
            if error is Injected:
                o.eq(e.args, (will,), "which failure " + label + " reports")
                o.cover("failure in " + will)
                self.failed = True
            else:
                o.cover("no start time")
            self.model_reset = False
        else:
            r = o.returns(label, target)
            if ops[-1] == "step":
                if not self.use_dice:
                    o.check(r == auto.next_time, "step() returns other time than the model's", observed=r, expected=auto.next_time)
                    o.cover("step returns the model's time")
            if "reset" in ops:
                now = auto.time_at_reset
                o.check(now == np.datetime64(self.start, "s"), "current time at reset", observed=now, expected=np.datetime64(self.start, "s"))
                o.cover("current time at reset")
                self.model_reset = True
                self.left = getattr(self, "c", None) and self.c.n - 1
            if self.use_dice:
                self.left -= 1 if ops == ["step"] else self.left if ops[-1] == "run" else 0
            self.used = self.used or label == "run"
        auto.settle(events, label)
        auto.fail_next = None

    left = 0

    def delete(self):
        o, auto = self.o, self.auto
        auto.begin()
        o.cover("deleted after failure" if self.failed else "deleted after use" if self.calls else "deleted unused")
        del self.s
        gc.collect()
        auto.settle(["shutdown"], "the end of the adapter's life")


def lifecycle(rng, o):
    drivers = [Driver(rng, o, rng.random() < 0.3) for _ in range(rng.choice([1, 1, 2, 3]))]
    if len(drivers) > 1:
        o.cover("several adapters")
        o.check(len({id(d.s.parameters) for d in drivers} | {id(d.s.output) for d in drivers}) == 2 * len(drivers), "instances share parameter sets")
        o.cover("default parameter sets are fresh")
    if any(d.use_dice for d in drivers):
        o.cover("DICE hooks")
    n = rng.choice([0, 3, 10, 25])
    for _ in range(n):
        if not drivers:
            break
        d = rng.choice(drivers)
        before = [list(x.auto.events) for x in drivers if x is not d]
        d.act()
        o.eq([list(x.auto.events) for x in drivers if x is not d], before, "hooks of another adapter were called")
        if rng.random() < 0.03:
            d.delete()
            drivers.remove(d)
    for d in drivers:
        d.delete()
    if n >= 10:
        o.nontrivial()
    o.state(n, len(drivers))


def abstract(rng, o):
    missing = set(rng.sample(sorted(METHODS.values()), rng.randint(0, 3)))
    cls = type("Partial", (Adapter,), {m: (lambda self: None) for m in METHODS.values() if m not in missing})
    if missing:
        o.raises(TypeError, "adapter without " + ",".join(sorted(missing)), cls, ParameterSet(), ParameterSet())
        o.cover("abstract hook missing")
    else:
        o.returns("complete adapter", cls, ParameterSet(), ParameterSet())
    o.nontrivial()


class Blocker:
    """makes the import of a module fail"""

    def __init__(self, name):
        self.name = name

    def find_spec(self, fullname, path=None, target=None):
        if fullname == self.name:
            raise ImportError("No module named '{}' (injected)".format(fullname), name=fullname)


MODULE = "openscm.adapters.dice"
NAMES = ["dice", "Dice", "DICE ", " DICE", "", "DICE2013", "MAGICC", "adapters", "None", "é", "DICE|x", "openscm", "__init__", "Adapter", "NAME", "DIC", "D"]


def registry(rng, o):
    original = sys.modules[MODULE]
    saved = dict(openscm.adapters._loaded_adapters)
    try:
        openscm.adapters._loaded_adapters.clear()
        cached, failed = False, False
        for _ in range(gen.many(rng, rng.randint(3, 12))):
            k = rng.choice(["load", "load", "unknown", "missing", "dependency", "openscm", "stub"])
            o.event("registry", k)
            if k == "load":
                o.check(o.returns("load DICE", load_adapter, "DICE") is DICE, "load_adapter returns another class")
                o.cover("same class")
                if failed:
                    o.cover("recovered from missing module")
                cached = True
            elif k == "openscm":
                o.check(type(o.returns("OpenSCM", OpenSCM, "DICE")._model) is DICE, "OpenSCM uses another class")
                cached = True
            elif k == "unknown":
                n = rng.choice(NAMES + ["x%d" % rng.randrange(1000)])
                o.raises(KeyError, "load " + repr(n), load_adapter, n)
                o.raises(KeyError, "OpenSCM " + repr(n), OpenSCM, n)
                o.cover("KeyError for unknown names")
                o.cover("OpenSCM with unknown model")
            elif k == "stub":
                cls = type("Stub", (), {})
                with patch.dict(openscm.adapters._loaded_adapters, {"Stub": cls}):
                    o.check(load_adapter("Stub") is cls, "load_adapter does not return the loaded class")
                    o.check(load_adapter("DICE") is DICE, "load_adapter returns another class")
                o.raises(KeyError, "load Stub afterwards", load_adapter, "Stub")
                cached = "DICE" in openscm.adapters._loaded_adapters
            else:
                blocker = Blocker(MODULE)
                with patch.dict(sys.modules, {MODULE: None}):
                    if k == "dependency":
                        # the module itself is there, but importing it fails
                        del sys.modules[MODULE]
                        sys.meta_path.insert(0, blocker)
                    try:
                        if cached:
                            o.check(o.returns("load DICE", load_adapter, "DICE") is DICE, "load_adapter returns another class")
                            o.cover("loaded before the module went missing")
                        else:
                            for f in (load_adapter, OpenSCM):
                                e = o.raises(AdapterNeedsModuleError, "load DICE without its module", f, "DICE")
                                o.check(re.search(r"openscm\[model-DICE\]", str(e)), "the error does not say what to install", message=str(e))
                            o.cover("OpenSCM with missing module")
                            o.cover("missing module" if k == "missing" else "missing dependency of the module")
                            failed = True
                            o.nontrivial()
                        n = rng.choice(NAMES)
                        o.raises(KeyError, "load " + repr(n), load_adapter, n)
                    finally:
                        if blocker in sys.meta_path:
                            sys.meta_path.remove(blocker)
        o.check(load_adapter("DICE") is DICE, "load_adapter returns another class")
    finally:
        sys.modules[MODULE] = original
        openscm.adapters.dice = original
        openscm.adapters._loaded_adapters.clear()
        openscm.adapters._loaded_adapters.update(saved)


FAMILIES = [Family("lifecycle", lifecycle, 750, 12000), Family("abstract", abstract, 60, 400), Family("registry", registry, 300, 4000)]
FAMILIES += [
    Family("long lifecycle", gen.large(lifecycle), 18, 400),
]
