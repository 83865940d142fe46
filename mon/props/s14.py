import csv
import datetime
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

from openscm.scenarios import rcps
from openscm.scmdataframe import ScmDataFrame

from mon import battery, core, ref, scm
from mon.core import Family
from mon.props import s11

RULE = (
    "a case runs a battery of operations (frames from tables, appending, histories, statistics, grids, units, time strings and rules, years with fractions, guessed types, ParameterSets, files, DICE, packaged "
    "scenarios) in several processes which differ in hash seed, time zone, locale, order and earlier (also failing) use, or repeatedly in one process, and compares "
    "bit-exact images; non-trivial: at least three configurations with different hash seeds or time zones were compared"
)
COVER = [
    "hash seed", "time zone", "locale", "order of operations", "earlier use", "repeated in one process", "time zone changed in the process", "rcps complete", "rcps in every process", "file rewritten", "file lost", "file read again",
] + ["item " + k for k in sorted(battery.ITEMS)]
ASSUMPTIONS = ["floating point results do not depend on the machine", "locales other than C and C.UTF-8 are not installed here"]
TECHNIQUE = "differential runs of one operation battery under varied process configurations, bit-exact comparison of images; packaged data against an independent CSV reader"

ZONES = ["UTC", "America/New_York", "Asia/Kolkata", "Pacific/Kiritimati", "Europe/Berlin", "America/St_Johns", "Australia/Lord_Howe", "Pacific/Pago_Pago", "Europe/Amsterdam", "Africa/Monrovia", "Asia/Shanghai"]


def plan(rng, n, scenarios=True):
    out = [[k, rng.randrange(10 ** 6)] for k in sorted(battery.ITEMS) if k != "scenarios" for _ in range(n)]
    return out + ([["scenarios", 0]] if scenarios else [])


def process(o, request, hashseed, tz, loc):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=os.pathsep.join([core.REPO, core.VERIF]), PYTHONHASHSEED=str(hashseed), TZ=tz, LC_ALL=loc, LANG=loc)
    p = subprocess.run(
        [sys.executable, "-B", "-m", "mon.battery"], input=json.dumps(request), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, universal_newlines=True, timeout=200,
        encoding="utf-8",
    )
    o.check(p.returncode == 0, "the battery failed in a process", hashseed=hashseed, tz=tz, locale=loc, stderr=p.stderr[-1500:])
    res = json.loads(p.stdout.splitlines()[-1])
    o.event("process", "hash seed {} tz {} locale {} noise {}", hashseed, tz, loc, request.get("noise"))
    return res


def compare(o, a, b, msg, **info):
    o.eq(sorted(a), sorted(b), msg + ": items")
    for k in a:
        o.cover("item " + k.split("/")[0])
        if a[k][0] != b[k][0]:
            x, y = a[k][1], b[k][1]
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            o.fail(msg, item=k, one=x[max(0, i - 150): i + 150], other=y[max(0, i - 150): i + 150], **info)
        else:
            o.checks += 1


def processes(rng, o):
    pl = plan(rng, 4)
    base = None
    for i in range(3):
        request = {"plan": pl}
        hashseed, tz, loc = rng.randrange(1, 2 ** 32 - 1), rng.choice(ZONES), rng.choice(["C", "C.UTF-8", "C.UTF-8"])
        if i == 0:
            hashseed = 0
        else:
            if rng.random() < 0.6:
                request["noise"] = rng.randrange(1, 10 ** 6)
                o.cover("earlier use")
            if rng.random() < 0.6:
                q = list(pl)
                rng.shuffle(q)
                request["plan"] = q
                o.cover("order of operations")
            if rng.random() < 0.5:
                request["locale"] = True
                o.cover("locale")
        res = process(o, request, hashseed, tz, loc)
        o.state(res["hash"] % 64, tz, loc, bool(request.get("noise")))
        if base is None:
            base = res
            continue
        compare(o, base["results"], res["results"], "result depends on the configuration of the process", hashseed=hashseed, tz=tz, locale=loc, noise=request.get("noise"))
        o.cover("hash seed")
        o.cover("time zone")
        o.cover("rcps in every process")
    o.nontrivial()


def repeated(rng, o):
    """in this process, again and again"""
    pl = plan(rng, 2, scenarios=rng.random() < 0.2)
    old = os.environ.get("TZ")
    try:
        base = battery.run(pl)
        zones = rng.sample(ZONES, 2)
        for z in zones:
            os.environ["TZ"] = z
            time.tzset()
            battery.noise(rng.randrange(10 ** 6), 4)
            rng.shuffle(pl)
            o.event("repeat", "tz {}", z)
            compare(o, base, battery.run(pl), "result depends on time zone or earlier use", tz=z)
            o.state(z)
    finally:
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        time.tzset()
    o.cover("repeated in one process")
    o.cover("time zone changed in the process")
    o.nontrivial()


def packaged(rng, o):
    """the scenarios are what is in the four files"""
    here = os.path.join(core.REPO, "openscm", "scenarios")
    points, rows = {}, []
    for name in ("rcp26", "rcp45", "rcp60", "rcp85"):
        with open(os.path.join(here, name + "_emissions.csv"), newline="", encoding="utf-8") as fh:
            table = list(csv.reader(fh))
        head = [h.lower() for h in table[0]]
        meta = [i for i, h in enumerate(head) if not h[:1].isdigit()]
        for line in table[1:]:
            r = {}
            for i in meta:
                v = line[i]
                r[head[i]] = None if v == "" else v
            rows.append(r)
            for i, h in enumerate(head):
                if i in meta or line[i] == "":
                    continue
                t = datetime.datetime.strptime(h, "%Y-%m-%d %H:%M:%S") if " " in h else datetime.datetime.strptime(h, "%Y-%m-%d") if "-" in h else datetime.datetime(int(float(h)), 1, 1)
                k = tuple((c, r[c]) for c in sorted(r)), ref.to_seconds(t)
                o.check(k not in points, "the files hold a point twice", point=k)
                points[k] = float(line[i])
    m = scm.read(o, rcps)
    got = {}
    for r, v in zip(m.rows, m.vals):
        r = {c: (None if x is None else str(x)) for c, x in r.items()}
        for t, x in zip(m.times, v):
            if x == x:
                k = tuple((c, r[c]) for c in sorted(r)), t
                o.check(k not in got, "a point occurs twice in rcps", point=k)
                got[k] = x
    o.eq(len(m.rows), len(rows), "number of timeseries of the packaged scenarios")
    scm.points_equal(o, got, points, "packaged scenarios", rtol=1e-13)
    with open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "rcps.csv"), newline="") as fh:
        summary = {(r["scenario"], r["variable"]): r for r in csv.DictReader(fh)}
    o.eq({(r["scenario"], r["variable"]) for r in m.rows}, set(summary), "packaged timeseries")
    for r, v in zip(m.rows, m.vals):
        exp = summary[(r["scenario"], r["variable"])]
        v = [x for x in v if x == x]
        o.eq((r["unit"], r["parameter_type"], len(v)), (exp["unit"], exp["parameter_type"], int(exp["points"])), "packaged timeseries", timeseries=r)
        # the weighted sum notices exchanged values
        o.close([sum(v), sum((i + 1) * x for i, x in enumerate(v))], [float(exp["sum"]), float(exp["weighted"])], "sums of the packaged values", rtol=1e-12, timeseries=r)
    o.cover("rcps complete")
    o.event("rcps", "{} timeseries {} points", len(m.rows), len(got))
    o.nontrivial()


def files(rng, o):
    """one path, whose content changes between reads"""
    d = tempfile.mkdtemp(prefix="verif-s14-")
    try:
        path = os.path.join(d, "x.csv")
        held = []
        for k in range(rng.randint(2, 5)):
            if k and rng.random() < 0.2:
                if rng.random() < 0.5 and os.path.exists(path):
                    os.remove(path)
                else:
                    with open(path, "w") as fh:
                        fh.write("model,scenario\n1,2\n")
                o.raises((OSError, ValueError), "a file which is gone or has no data", ScmDataFrame, path)
                o.cover("file lost")
            b = s11.build(rng, o)
            if b is None or not s11.text_safe(b[0]):
                continue
            m = b[0]
            m.build().to_csv(path)
            if rng.random() < 0.5:
                os.utime(path, (10 ** 9, 10 ** 9))
            o.event("write and read", "{} timeseries {} points", len(m.rows), len(m.times))
            f = o.returns("ScmDataFrame(path)", ScmDataFrame, path)
            scm.compare(o, s11.rounded(scm.read(o, f)), s11.rounded(m), "file read after it was rewritten", rtol=1e-12, atol=1e-320, times_read=k)
            if rng.random() < 0.3:
                before = scm.read(o, f)
                f.set_meta("changed", "scenario")
                f["time"] = [datetime.datetime(1950, 1, 1) + datetime.timedelta(days=i) for i in range(len(m.times))]
                g = o.returns("ScmDataFrame(path)", ScmDataFrame, path)
                scm.compare(o, scm.read(o, g), before, "file read again", rtol=1e-12, atol=1e-320)
                f = g
                o.cover("file read again")
            held.append((f, m))
        for f, m in held:
            scm.compare(o, s11.rounded(scm.read(o, f)), s11.rounded(m), "frame after its file was rewritten", rtol=1e-12, atol=1e-320)
        if len(held) > 1:
            o.cover("file rewritten")
            o.nontrivial()
    finally:
        shutil.rmtree(d)


FAMILIES = [Family("files", files, 60, 600), Family("processes", processes, 5, 60), Family("repeated", repeated, 8, 200), Family("packaged", packaged, 1, 2)]
