"""
Framework: observers, case runner, evidence, replay.

A property module (mon/props/<id>.py) provides

    FAMILIES : list of Family(name, fn, quick, thorough)   workloads with monitors
    RULE     : how cases are made and what makes one non-trivial
    COVER    : situations that must have been observed (else: inconclusive)
    ASSUMPTIONS, TECHNIQUE ... (used for MANIFEST)

A family function fn(rng, o) drives the real library with inputs drawn from `rng` and
reports to the observer `o`:

    o.call(label, f, *a, **k)  records the call event, calls, records the return event
    o.check(cond, msg, **info) one evaluation of a monitor; False -> violation
    o.cover(label)             a situation the property is about was reached
    o.nontrivial()             this case satisfies the property's non-triviality rule
    o.state(*key)              an abstract state the monitor saw

Everything is a function of (property, seed, family, index), so a case can be replayed.
Verdicts are three-valued: violated (exit 1), held on what was observed (exit 0) and
inconclusive (exit 2, e.g. the deciding situation was never reached or a case timed out).
Errors of the harness itself exit with 3.
"""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import re
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

_Family = collections.namedtuple("Family", "name fn quick thorough")
QUICK = 3


def Family(name, fn, quick, thorough):
    """cases of the quick tier are given in units which took 2-20 s per check; single cases (processes, tables) are not multiplied"""
    quick = quick if quick < 5 else quick * QUICK
    return _Family(name, fn, quick, max(quick, thorough))


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Inconclusive(Exception):
    pass


class CaseTimeout(BaseException):
    """not an Exception, for neither the library nor a monitor may take it for an answer"""


def short(x, n=160):
    try:
        r = repr(x)
    except Exception as e:  # noqa
        r = "<repr failed: {!r}>".format(e)
    r = " ".join(r.split())
    return r if len(r) <= n else r[: n - 3] + "..."


CURRENT = None  # the observer of the case which is running


class Observer:
    """Records events and evaluates monitors for one case."""

    MAX_TRACE = 400

    def __init__(self):
        self.trace = []
        self.dropped = 0
        self.events = collections.Counter()
        self.covered = collections.Counter()
        self.states = set()
        self.checks = 0
        self.is_nontrivial = False
        self._sig = hashlib.sha1()

    # ---- events -----------------------------------------------------------------
    def event(self, kind, text="", *args):
        if args:
            text = text.format(*args)
        self.events[kind] += 1
        self._sig.update(("{}:{};".format(kind, text)).encode("utf8", "replace"))
        if len(self.trace) < self.MAX_TRACE:
            self.trace.append("{} {}".format(kind, text))
        else:
            self.trace[self.MAX_TRACE // 2 + self.dropped % (self.MAX_TRACE // 2)] = "{} {}".format(kind, text)
            self.dropped += 1

    def call(self, label, f, *args, **kwargs):
        self.event("call", label)
        try:
            r = f(*args, **kwargs)
        except BaseException as e:
            self.event("raise", "{} -> {}: {}".format(label, type(e).__name__, short(str(e), 80)))
            raise
        self.events["return"] += 1
        return r

    def raises(self, exc, label, f, *args, **kwargs):
        """f must raise exc (class or tuple of classes)"""
        self.checks += 1
        self.event("call", label + " (must raise)")
        try:
            r = f(*args, **kwargs)
        except exc as e:
            self.event("raise", "{} -> {}".format(label, type(e).__name__))
            return e
        except (CaseTimeout, MemoryError):
            raise
        except Exception as e:
            raise Violation(
                "{}: raised {}: {} instead of {}".format(label, type(e).__name__, short(str(e)), exc)
            ) from e
        raise Violation("{}: returned {} instead of raising {}".format(label, short(r), exc))

    def returns(self, label, f, *args, **kwargs):
        """f must not raise"""
        self.checks += 1
        try:
            return self.call(label, f, *args, **kwargs)
        except (CaseTimeout, MemoryError, Violation):
            raise
        except Exception as e:
            raise Violation("{}: raised {}: {}".format(label, type(e).__name__, short(str(e)))) from e

    # ---- monitors ---------------------------------------------------------------
    def check(self, cond, msg, **info):
        self.checks += 1
        if not cond:
            self.fail(msg, **info)

    def fail(self, msg, **info):
        if info:
            msg += " | " + ", ".join("{}={}".format(k, short(v, 400)) for k, v in info.items())
        raise Violation(msg)

    def eq(self, a, b, msg, **info):
        self.checks += 1
        if not a == b:
            self.fail(msg, observed=a, expected=b, **info)

    def close(self, a, b, msg, rtol=1e-9, atol=0.0, **info):
        """element-wise |a-b| <= atol + rtol*|b|; NaN equals NaN"""
        import numpy as np

        self.checks += 1
        aa = np.asarray(a, dtype=float)
        bb = np.asarray(b, dtype=float)
        if aa.shape != bb.shape:
            self.fail(msg + " (shape)", observed=a, expected=b, **info)
        nan_a, nan_b = np.isnan(aa), np.isnan(bb)
        with np.errstate(all="ignore"):
            bad = np.abs(aa - bb) > atol + rtol * np.abs(bb)
            bad |= np.isinf(aa) | np.isinf(bb)
            bad &= ~(aa == bb)
        bad &= ~(nan_a & nan_b)
        bad |= nan_a != nan_b
        if bad.any():
            i = tuple(int(k) for k in np.argwhere(bad)[0]) if aa.ndim else ()
            self.fail(
                msg,
                at=i,
                observed_there=float(aa[i]),
                expected_there=float(bb[i]),
                observed=aa.tolist(),
                expected=bb.tolist(),
                **info
            )

    def cover(self, label, n=1):
        self.covered[label] += n

    def state(self, *key):
        self.states.add(hash(key))

    def nontrivial(self):
        self.is_nontrivial = True

    @property
    def signature(self):
        return self._sig.hexdigest()[:16]


def case_rng(prop, seed, family, index):
    return random.Random("{}/{}/{}/{}".format(prop, seed, family, index))


CASE_TIMEOUT = 300  # seconds
CASE_CPU = 90  # seconds of CPU time; evidence tells how long the slowest case took
CASE_MEMORY = 5 << 29  # bytes of address space of a worker, which takes a fifth of it


class CaseStuck(CaseTimeout):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def _cpu_alarm(signum, frame):
    raise CaseStuck()


def _limit_memory():
    import resource

    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (CASE_MEMORY if hard == resource.RLIM_INFINITY else min(CASE_MEMORY, hard), hard))


def run_case(prop, module, family, seed, index):
    """-> dict with the verdict of one case"""
    global CURRENT
    o = Observer()
    res = {"family": family.name, "index": index, "verdict": "held", "msg": ""}
    old = signal.signal(signal.SIGALRM, _alarm), signal.signal(signal.SIGPROF, _cpu_alarm)
    cpu = time.process_time()
    try:
        signal.alarm(CASE_TIMEOUT)
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            import numpy as np

            CURRENT = o
            with np.errstate(all="ignore"):
                family.fn(case_rng(prop, seed, family.name, index), o)
    except Violation as e:
        res.update(verdict="violated", msg=str(e), key=e.key)
    except (CaseStuck, MemoryError) as e:
        # thousands of times what any case takes on the unchanged tree
        tb = [fr for fr in traceback.extract_tb(e.__traceback__) if fr.filename.startswith(os.path.join(REPO, "openscm"))]
        res.update(
            verdict="violated",
            msg="no end in sight after {} | {}".format(
                "{} s of CPU time".format(CASE_CPU) if isinstance(e, CaseStuck) else "{:.1f} GB of memory".format(CASE_MEMORY / 2 ** 30),
                " <- ".join("{}:{} {}".format(os.path.basename(fr.filename), fr.lineno, fr.name) for fr in reversed(tb[-6:])),
            ),
            key=None,
            stuck=True,
        )
    except (CaseTimeout, Inconclusive) as e:
        res.update(verdict="inconclusive", msg="{}: {}".format(type(e).__name__, e))
    except Exception as e:
        # The unchanged library never lets an exception escape here (swept over many
        # seeds): the library raised where it must not, or returned something whose
        # shape the monitor cannot even look at.
        tb = traceback.extract_tb(e.__traceback__)
        in_lib = any(fr.filename.startswith(os.path.join(REPO, "openscm")) for fr in tb)
        res.update(
            verdict="violated",
            msg="unexpected {} {}: {} | {}".format(
                type(e).__name__,
                "from the library" if in_lib else "while observing a result of the library",
                short(str(e)),
                " <- ".join("{}:{} {}".format(os.path.basename(fr.filename), fr.lineno, fr.name) for fr in reversed(tb[-6:])),
            ),
            key=None,
        )
    finally:
        CURRENT = None
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGALRM, old[0])
        signal.signal(signal.SIGPROF, old[1])
    res["cpu"] = time.process_time() - cpu
    res["checks"] = o.checks
    res["events"] = dict(o.events)
    res["covered"] = dict(o.covered)
    res["states"] = list(o.states)
    res["sig"] = o.signature
    res["nontrivial"] = o.is_nontrivial and o.checks > 0
    if res["verdict"] != "held" or index < 2:
        res["trace"] = o.trace
    return res


_WORK = None


def _run_chunk(chunk):
    prop, module, families, seed = _WORK
    out = []
    for fname, index in chunk:
        out.append(run_case(prop, module, families[fname], seed, index))
        if out[-1].get("stuck"):
            break
    return out


def load(prop):
    return importlib.import_module("mon.props." + prop.lower())


def setup_library():
    """Import the code under test from /repo's working tree, without stale byte code."""
    sys.dont_write_bytecode = True
    import shutil

    for base, dirs, _ in os.walk(os.path.join(REPO, "openscm")):
        if "__pycache__" in dirs:
            shutil.rmtree(os.path.join(base, "__pycache__"), ignore_errors=True)
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    import openscm

    if not os.path.realpath(openscm.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("openscm imported from " + openscm.__file__)
    import openscm.scmdataframe  # noqa
    import openscm.core  # noqa
    import logging

    logging.disable(logging.CRITICAL)


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    return {k["key"]: k for k in data["findings"] if k["property"] == prop}


def main(argv=None):
    global _WORK
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS") or min(8, os.cpu_count() or 1)))
    ap.add_argument("--replay")
    ap.add_argument("--family")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--all-violations", action="store_true")
    args = ap.parse_args(argv)
    prop = args.property.upper()
    t0 = time.time()
    try:
        setup_library()
        module = load(prop)
    except Exception:
        traceback.print_exc()
        print("ERROR property={} the library or the harness cannot be loaded".format(prop))
        return 3
    families = {f.name: f for f in module.FAMILIES}

    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        r = run_case(prop, module, families[rep["family"]], rep["seed"], rep["index"])
        print("\n".join(r.get("trace", [])))
        print(r["verdict"], r["msg"])
        return {"held": 0, "violated": 1, "inconclusive": 2}[r["verdict"]]

    work = []
    for f in module.FAMILIES:
        if args.family and f.name != args.family:
            continue
        n = f.quick if args.tier == "quick" else f.thorough
        n = max(1, int(round(n * args.scale)))
        work += [(f.name, i) for i in range(n)]
    # interleave so that chunks are of similar cost
    random.Random(0).shuffle(work)
    size = max(1, min(50, len(work) // (args.jobs * 6) or 1))
    chunks = [work[i : i + size] for i in range(0, len(work), size)]
    _WORK = (prop, module, families, args.seed)
    if hasattr(module, "prepare"):
        module.prepare(args.tier, args.seed)

    results = []
    if args.jobs <= 1:
        for c in chunks:
            results += _run_chunk(c)
    else:
        ctx = multiprocessing.get_context("fork")
        known = known_findings(prop)
        with ctx.Pool(min(args.jobs, len(chunks)), _limit_memory) as pool:
            try:
                for out in pool.imap_unordered(_run_chunk, chunks):
                    results += out
                    if not args.all_violations and any(r["verdict"] == "violated" and r.get("key") not in known for r in out):
                        break
            finally:
                pool.terminate()
    return report(prop, module, args, results, t0)


def report(prop, module, args, results, t0):
    known = known_findings(prop)
    results.sort(key=lambda r: (r["family"], r["index"]))
    violations = [r for r in results if r["verdict"] == "violated" and r.get("key") not in known]
    found = {}
    for r in results:
        if r["verdict"] == "violated" and r.get("key") in known:
            found.setdefault(r["key"], []).append(r)
    inconclusive = [r for r in results if r["verdict"] == "inconclusive"]
    events, covered, checks = collections.Counter(), collections.Counter(), 0
    states = set()
    for r in results:
        events.update(r["events"])
        covered.update(r["covered"])
        checks += r["checks"]
        states.update(r["states"])
    nontrivial = {(r["family"], r["sig"]) for r in results if r["nontrivial"]}
    missing = [c for c in getattr(module, "COVER", []) if not covered.get(c)]
    if args.family:
        missing = []
    samples = []
    seen = set()
    for r in results:
        if r["family"] not in seen and r.get("trace"):
            seen.add(r["family"])
            samples.append({"family": r["family"], "index": r["index"], "trace": [t[:200] for t in r["trace"][:14]]})
    per_family = collections.Counter(r["family"] for r in results)
    evidence = {
        "property": prop,
        "tier": args.tier,
        "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(nontrivial),
            "rule": module.RULE,
            "samples": samples[:8],
            "cases_per_family": dict(sorted(per_family.items())),
            "monitor_evaluations": checks,
            "events_observed": dict(sorted(events.items())),
            "situations_observed": dict(sorted(covered.items())),
            "distinct_abstract_states": len(states),
            "inconclusive_cases": len(inconclusive),
            "known_findings_observed": sorted(found),
            "slowest_case_cpu_s": round(max([r["cpu"] for r in results] or [0]), 2),
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if not args.family and os.path.realpath(REPO) == os.path.realpath("/repo") or os.environ.get("VERIF_EVIDENCE"):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)

    for key in sorted(found):
        print("KNOWN-FINDING: property={} {}".format(prop, known[key]["what"]))
    code = 0
    if violations:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        shown = violations if args.all_violations else violations[:3]
        for r in shown:
            path = os.path.join(rdir, "{}-{}-{}-{}.json".format(prop, re.sub(r"[^A-Za-z0-9]+", "_", r["family"]), args.seed, r["index"]))
            with open(path, "w") as f:
                json.dump(
                    {
                        "property": prop,
                        "family": r["family"],
                        "seed": args.seed,
                        "index": r["index"],
                        "msg": r["msg"],
                        "trace": r.get("trace", []),
                        "how": "cd /verif && ./check {} --replay {}".format(prop, path),
                    },
                    f,
                    indent=1,
                )
            print("  {}#{}: {}".format(r["family"], r["index"], r["msg"][:1500]))
            print("VIOLATION property={} replay={}".format(prop, path))
        code = 1
    elif inconclusive:
        for r in inconclusive[:3]:
            print("INCONCLUSIVE property={} {}#{}: {}".format(prop, r["family"], r["index"], r["msg"]))
        code = 2
    elif checks == 0 or missing:
        print("INCONCLUSIVE property={} never observed: {}".format(prop, missing or "any monitor evaluation"))
        code = 2
    print(
        "{} property={} tier={} seed={} cases={} nontrivial={} monitor_evaluations={} violations={} wall={:.1f}s".format(
            {0: "HELD", 1: "VIOLATED", 2: "INCONCLUSIVE"}[code], prop, args.tier, args.seed, len(results), len(nontrivial), checks, len(violations), time.time() - t0
        )
    )
    return code


if __name__ == "__main__":
    from mon.core import main as real_main  # so that the classes of this module exist once

    sys.exit(real_main())
