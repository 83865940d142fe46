"""
Runs checks against the planted changes and writes tools/caught.json.

    python3 tools/campaign.py [--jobs N] [--only SEED,...] [--missing]

For every change in seeded/ a scratch copy of /repo is made outside /repo and /verif; the check of the change's own property runs in full,
those of the other properties of its group (same first letter) with a quarter of their cases. The copy is removed afterwards.
"""
import argparse
import json
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
OUT = os.path.join(VERIF, "tools", "caught.json")
IDS = [json.loads(line)["id"] for line in open(os.path.join(VERIF, "properties.jsonl"))]


def one(seed):
    own = json.load(open(os.path.join(VERIF, "seeded", seed, "meta.json")))["property"]
    d = tempfile.mkdtemp(prefix="verif-campaign-")
    copy = os.path.join(d, "repo")
    try:
        shutil.copytree(REPO, copy, symlinks=True)
        subprocess.check_call(["git", "-C", copy, "apply", os.path.join(VERIF, "seeded", seed, "patch.diff")])
        got = []
        for p in [own] + [p for p in IDS if p[0] == own[0] and p != own]:
            cmd = [os.path.join(VERIF, "check"), p, "--jobs", "2"]
            if p != own:
                if p == "S14":
                    continue  # slow, and about something else
                cmd += ["--scale", "0.25"]
            try:
                r = subprocess.run(cmd, env=dict(os.environ, VERIF_REPO=copy, VERIF_SEED="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=900)
            except subprocess.TimeoutExpired:
                continue
            if r.returncode == 1 and "VIOLATION property=" + p in r.stdout:
                got.append(p)
        return seed, got
    finally:
        shutil.rmtree(d)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("--jobs", type=int, default=3)
    a.add_argument("--only")
    a.add_argument("--missing", action="store_true")
    a = a.parse_args()
    seeds = sorted(os.listdir(os.path.join(VERIF, "seeded")))
    res = json.load(open(OUT)) if os.path.exists(OUT) else {}
    todo = a.only.split(",") if a.only else [s for s in seeds if not a.missing or s not in res]
    with ThreadPoolExecutor(a.jobs) as pool:
        for seed, got in pool.map(one, todo):
            res[seed] = got
            print(seed, got, flush=True)
            with open(OUT, "w") as fh:
                json.dump({s: res[s] for s in sorted(res) if s in seeds}, fh, indent=1)


if __name__ == "__main__":
    main()
