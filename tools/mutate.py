"""
Mutation campaign (a development tool, not a check): plants one syntactic change at a time in
scratch copies of /repo, keeps those which pass the existing tests and asks the checks.

  python3 tools/mutate.py OUT.jsonl --workers 4 [--seed 0] [--limit N] [--files core/views.py ...]
"""
import argparse
import ast
import copy
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys
import time

PY = "/opt/venv/bin/python"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {
    "openscm/core/views.py": "P02 P03 P06 P04 P05 P01 P07 T01 T03 M01 M03 S07",
    "openscm/core/parameters.py": "P04 P05 P03 P07 P01 P02",
    "openscm/core/parameterset.py": "P04 P07 P05 P01 P03 P02 S12 M03",
    "openscm/core/regions.py": "P07 P01 P04 S12",
    "openscm/core/time.py": "T01 T02 T03 T04 T05 T06 P02 S07 S03 S09 M01 M02",
    "openscm/core/units.py": "U01 U02 U03 P01 S08",
    "openscm/core/__init__.py": "M04 M01 M03",
    "openscm/adapters/__init__.py": "M04 M01 M03",
    "openscm/adapters/dice.py": "M02 M01 M03",
    "openscm/scmdataframe/__init__.py": "S12 S14 S01",
    "openscm/scmdataframe/base.py": "S01 S02 S03 S04 S05 S06 S07 S08 S09 S10 S11 S12 S13 S14",
    "openscm/scmdataframe/filters.py": "S02 S03 S04 S13",
    "openscm/scmdataframe/offsets.py": "T05 S09",
    "openscm/scmdataframe/parameter_type.py": "T06 S09 S12",
    "openscm/scmdataframe/pyam_compat.py": "S11 S12",
}
BASE_FAIL = [
    "tests/unit/test_units.py::test_a",
    "tests/unit/test_scmdataframe/test_scmdataframe.py::test_filter_timeseries_nan_meta",
    "tests/unit/test_scmdataframe/test_scmdataframe.py::test_append_doesnt_warn_if_continuous_times",
]


def variants(node):
    """-> list of (description, replacement) for one node"""
    out = []
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        table = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
        for t in table.get(type(node.ops[0]), []):
            n = copy.deepcopy(node)
            n.ops = [t()]
            out.append(("cmp", n))
    if isinstance(node, ast.BoolOp):
        n = copy.deepcopy(node)
        n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        out.append(("bool", n))
        for i in range(len(node.values)):
            rest = [copy.deepcopy(v) for j, v in enumerate(node.values) if j != i]
            out.append(("drop operand", rest[0] if len(rest) == 1 else ast.BoolOp(op=copy.deepcopy(node.op), values=rest)))
    if isinstance(node, ast.BinOp):
        table = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}
        if type(node.op) in table:
            n = copy.deepcopy(node)
            n.op = table[type(node.op)]()
            out.append(("arith", n))
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub, ast.Invert)):
        out.append(("unary", copy.deepcopy(node.operand)))
    if isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            out.append(("const", ast.Constant(not v)))
        elif isinstance(v, (int, float)):
            out += [("const", ast.Constant(v + 1)), ("const", ast.Constant(v - 1))]
    if isinstance(node, ast.Call):
        if isinstance(node.func, ast.Attribute) and node.func.attr in ("copy", "tolist", "sort_index", "reset_index", "drop_duplicates", "lower", "strip", "upper", "flatten", "ravel", "dropna", "fillna", "astype"):
            out.append(("drop ." + node.func.attr, copy.deepcopy(node.func.value)))
        if isinstance(node.func, ast.Name) and node.func.id in ("copy", "deepcopy", "list", "sorted", "tuple", "set", "int", "float", "str") and node.args:
            out.append(("drop " + node.func.id, copy.deepcopy(node.args[0])))
        if isinstance(node.func, ast.Name) and node.func.id in ("min", "max", "any", "all"):
            n = copy.deepcopy(node)
            n.func.id = {"min": "max", "max": "min", "any": "all", "all": "any"}[node.func.id]
            out.append(("swap", n))
        for i, k in enumerate(node.keywords):
            if k.arg:
                n = copy.deepcopy(node)
                del n.keywords[i]
                out.append(("drop kw " + k.arg, n))
    if isinstance(node, ast.IfExp):
        out += [("ifexp", copy.deepcopy(node.body)), ("ifexp", copy.deepcopy(node.orelse))]
    if isinstance(node, ast.Slice):
        if node.lower is not None:
            n = copy.deepcopy(node)
            n.lower = None
            out.append(("slice", n))
        if node.upper is not None:
            n = copy.deepcopy(node)
            n.upper = None
            out.append(("slice", n))
    if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
        out.append(("del stmt", ast.Pass()))
    if isinstance(node, ast.If):
        n = copy.deepcopy(node)
        n.test = ast.UnaryOp(op=ast.Not(), operand=n.test)
        out.append(("negate if", n))
        out.append(("skip if", ast.If(test=ast.Constant(False), body=copy.deepcopy(node.body), orelse=copy.deepcopy(node.orelse))))
        out.append(("always if", ast.If(test=ast.Constant(True), body=copy.deepcopy(node.body), orelse=copy.deepcopy(node.orelse))))
    if isinstance(node, ast.Try):
        out.append(("drop try", ast.If(test=ast.Constant(True), body=copy.deepcopy(node.body) + copy.deepcopy(node.finalbody), orelse=[])))
    if isinstance(node, (ast.Continue,)):
        out.append(("break", ast.Break()))
    if isinstance(node, ast.Return) and node.value is not None and not isinstance(node.value, ast.Constant):
        pass
    return out


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    skip = set()
    for n in ast.walk(tree):  # annotations, docstrings
        for f in ("annotation", "returns"):
            a = getattr(n, f, None)
            if a is not None:
                skip |= {id(x) for x in ast.walk(a)}
        if isinstance(n, ast.Raise):
            skip |= {id(x) for x in ast.walk(n)}
    out = []
    for parent in ast.walk(tree):
        for field, value in ast.iter_fields(parent):
            items = list(enumerate(value)) if isinstance(value, list) else [(None, value)]
            for i, node in items:
                if not isinstance(node, ast.AST) or id(node) in skip:
                    continue
                for desc, repl in variants(node):
                    old = ast.unparse(node)
                    if i is None:
                        setattr(parent, field, repl)
                    else:
                        value[i] = repl
                    try:
                        ast.fix_missing_locations(tree)
                        code = ast.unparse(tree)
                        out.append((getattr(node, "lineno", 0), desc, old[:120], ast.unparse(repl)[:120], code))
                    except Exception:
                        pass
                    if i is None:
                        setattr(parent, field, node)
                    else:
                        value[i] = node
    return out


def tests(copydir):
    cmd = [PY, "-B", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-n", "2", "tests/unit", "tests/integration", "tests/adapters"]
    for b in BASE_FAIL:
        cmd += ["--deselect", b]
    try:
        r = subprocess.run(cmd, cwd=copydir, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=240, env=dict(os.environ, PYTHONPATH=copydir))
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 0


def checks(copydir, props, scale=1.0):
    res = {}
    for p in props:
        try:
            r = subprocess.run(
                [PY, "-B", "-m", "mon.core", p, "--jobs", "2", "--scale", str(scale)], cwd=VERIF, env=dict(os.environ, VERIF_REPO=copydir, VERIF_REPLAY_DIR="/tmp/mutate_replay"), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=600, text=True
            )
            code, out = r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            code, out = 9, ""
        res[p] = code
        if code == 1:
            return res, "\n".join(out.splitlines()[:1])[:300]
    return res, ""


def worker(args):
    wid, jobs, out, scale = args
    d = "/tmp/mutate_%d" % wid
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    for path, line, desc, old, new, code in jobs:
        t = time.time()
        target = os.path.join(d, path)
        orig = open(target).read()
        open(target, "w").write(code)
        rec = {"file": path, "line": line, "op": desc, "old": old, "new": new}
        try:
            ok = tests(d)
            rec["tests"] = "pass" if ok else "fail"
            if ok:
                rec["checks"], rec["msg"] = checks(d, FILES[path].split(), scale)
                rec["caught"] = [p for p, c in rec["checks"].items() if c == 1]
        finally:
            open(target, "w").write(orig)
        rec["s"] = round(time.time() - t, 1)
        with open(out, "a") as f:
            f.write(json.dumps(rec) + "\n")
    shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--limit", type=int)
    ap.add_argument("--scale", type=float, default=0.5)
    ap.add_argument("--files", nargs="*")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--again", help="only the mutants which survived in this file of results")
    a = ap.parse_args()
    jobs = []
    for f in FILES:
        if a.files and not any(f.endswith(x) for x in a.files):
            continue
        jobs += [(f,) + m for m in mutants(os.path.join("/repo", f))]
    if os.path.exists(a.out):
        done = {(r["file"], r["line"], r["op"], r["old"], r["new"]) for r in map(json.loads, open(a.out))}
        jobs = [j for j in jobs if tuple(j[:5]) not in done]
    if a.again:
        rows = [json.loads(x) for x in open(a.again)]
        left = {(r["file"], r["op"], r["old"], r["new"]) for r in rows if r["tests"] == "pass" and not r.get("caught")}
        jobs = [j for j in jobs if (j[0],) + tuple(j[2:5]) in left]
    random.Random(a.seed).shuffle(jobs)
    if a.limit:
        jobs = jobs[: a.limit]
    print(len(jobs), "mutants")
    if a.list:
        sys.exit()
    ps = [multiprocessing.Process(target=worker, args=((i, jobs[i :: a.workers], a.out, a.scale),)) for i in range(a.workers)]
    for p in ps:
        p.start()
    for p in ps:
        p.join()
