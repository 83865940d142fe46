"""
Confirm planted changes in scratch copies of /repo (a development tool, not a check).

  python3 tools/plant.py SPEC.py [ID ...] [--checks] [--jobs N]

SPEC.py defines SEEDS, a list of dicts (id, property, edits, demo, needs, what_it_breaks). A seed is
kept in seeded/<id>/ if the patch applies, changes original lines only, passes the existing tests and
its demonstration passes without and fails with it. --checks: run the checks of the property on it.
"""
import argparse
import json
import os
import runpy
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

PY = "/opt/venv/bin/python"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORIGINAL = "d70df34"
DEMO = '#!/bin/bash\nPYTHONPATH="$PWD${PYTHONPATH:+:$PYTHONPATH}" exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)


def confirm(seed, checks):
    sid = seed["id"]
    copy = "/tmp/plant_" + sid
    shutil.rmtree(copy, ignore_errors=True)
    sh(["cp", "-a", "/repo", copy])
    try:
        for f, old, new in seed["edits"]:
            p = os.path.join(copy, f)
            s = open(p).read()
            if s.count(old) != 1:
                return sid, "edit matches {} times in {}: {!r}".format(s.count(old), f, old[:60])
            blame = sh(["git", "blame", "-s", "HEAD", "--", f], cwd=copy).stdout.splitlines()
            i = s[: s.index(old)].count("\n")
            a, b = old.split("\n"), new.split("\n")
            import difflib
            for tag, i1, i2, _, _ in difflib.SequenceMatcher(None, a, b).get_opcodes():
                if tag in ("replace", "delete"):
                    for k in range(i1, i2):
                        line = blame[i + k]
                        if not line.lstrip("^").startswith(ORIGINAL[:7]):
                            return sid, "not an original line: " + line
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], cwd=copy).stdout
        d = os.path.join(VERIF, "seeded", sid)
        out = d + ".tmp"
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(seed["demo"].lstrip("\n"))
        with open(os.path.join(out, "demo.sh"), "w") as fh:
            fh.write(DEMO)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": seed["property"], "needs": seed["needs"], "what_it_breaks": seed["what_it_breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        ok = sh(["bash", os.path.join(out, "demo.sh")], cwd="/repo")
        bad = sh(["bash", os.path.join(out, "demo.sh")], cwd=copy)
        if ok.returncode != 0:
            shutil.rmtree(out)
            return sid, "demo fails on the unchanged tree: " + ok.stdout[-600:]
        if bad.returncode == 0:
            shutil.rmtree(out)
            return sid, "demo passes with the change"
        env = dict(os.environ, PYTHONPATH=copy)
        t = sh([PY, "-B", "-m", "pytest", "-q", "-n", "4", "-p", "no:cacheprovider", "tests/unit", "tests/integration", "tests/adapters"], cwd=copy, env=env)
        tail = t.stdout.strip().splitlines()[-1]
        if "6 failed, 1287 passed" not in tail:
            shutil.rmtree(out)
            failed = [l for l in t.stdout.splitlines() if l.startswith("FAILED")]
            return sid, "TESTS " + tail + "\n    " + "\n    ".join(failed[:12])
        shutil.rmtree(d, ignore_errors=True)
        os.rename(out, d)
        res = "kept; demo: " + (bad.stdout.strip().splitlines() or [""])[-1][:150]
        if checks:
            for prop in seed.get("checks", [seed["property"]]):
                c = sh(["./check", prop, "--jobs", "4"], cwd=VERIF, env=dict(os.environ, VERIF_REPO=copy, VERIF_SEED="1"))
                v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
                res += "\n    {}: rc={} {}".format(prop, c.returncode, "CAUGHT " + v[0][:100] if v else "MISSED " + c.stdout[-300:])
        return sid, res
    finally:
        shutil.rmtree(copy, ignore_errors=True)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("spec")
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--checks", action="store_true")
    ap.add_argument("--jobs", type=int, default=2)
    a = ap.parse_args()
    seeds = [s for s in runpy.run_path(a.spec)["SEEDS"] if not a.ids or s["id"] in a.ids]
    with ThreadPoolExecutor(a.jobs) as ex:
        for sid, res in ex.map(lambda s: confirm(s, a.checks), seeds):
            print(sid, res, flush=True)
