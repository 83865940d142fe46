"""
Writes DESIGN.md from the texts below, the modules of mon/props, known_findings.json, seeded/ and tools/caught.json."""
import importlib
import json
import os
import sys
import warnings

warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

INTRO = open(os.path.join(HERE, "tools", "design_intro.md")).read()
NOTES = open(os.path.join(HERE, "tools", "design_notes.md")).read()
WHY = {}
cur = None
for line in open(os.path.join(HERE, "tools", "design_properties.md")):
    if line.startswith("## "):
        cur = line[3:].strip()
        WHY[cur] = ""
    elif cur:
        WHY[cur] += line

props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
out = [INTRO.rstrip(), "", "## 3. How each property is decided", ""]
for p in props:
    i = p["id"]
    m = importlib.import_module("mon.props." + i.lower())
    out += ["### {} {}".format(i, p["title"]), "", WHY[i].strip(), ""]
    out.append("*Workload.* " + m.RULE[0].upper() + m.RULE[1:] + ".")
    out.append("*Families (cases quick / thorough).* " + ", ".join("{} {}/{}".format(f.name, f.quick, f.thorough) for f in m.FAMILIES) + ".")
    if getattr(m, "COVER", None):
        out.append("*Situations that must have been observed (otherwise inconclusive).* {}: {}.".format(len(m.COVER), ", ".join(m.COVER)))
    if getattr(m, "ASSUMPTIONS", None):
        out.append("*Assumptions and limits.* " + "; ".join(m.ASSUMPTIONS) + ".")
    out.append("")
out += ["## 4. Genuine defects found", ""]
k = json.load(open(os.path.join(HERE, "known_findings.json")))
out.append("{} defects of openscm were repaired in `/repo` (one `fix:` commit each). All of them were found by the monitors as violations on the then unchanged tree; the check named reports the violation again when the commit is reverted:".format(len(k["fixed"])))
out.append("")
for f in k["fixed"]:
    w = f.split(" ", 3)
    out.append("- {} `{}` {}".format(w[1].split("=")[1], w[2][:7], w[3]))
out += ["", "Known findings which are not repaired (printed as KNOWN-FINDING, exit 0):", ""]
for f in k["findings"]:
    out.append("- **{}** ({}): {}. Input: {}.".format(f["key"], f["property"], f["what"], f["input"]))
out += ["", NOTES.rstrip(), "", "## 8. Planted changes and the checks which catch them", ""]
path = os.path.join(HERE, "tools", "caught.json")
caught = json.load(open(path)) if os.path.exists(path) else {}
out += ["Quick tier, seed 1, `tools/campaign.py` (each change applied to a copy, every check run; own property first).", "", "| change | property | what it breaks | caught by |", "|---|---|---|---|"]
missed = 0
for s in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", s, "meta.json")))
    c = caught.get(s)
    if c is not None:
        c = sorted(c, key=lambda p: (p != m["property"], p))
    txt = "(not run yet)" if c is None else ", ".join(c) if c else "**missed**"
    out.append("| {} | {} | {} | {} |".format(s, m["property"], m["what_it_breaks"].replace("|", "\\|"), txt))
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
