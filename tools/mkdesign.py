"""Writes DESIGN.md: tools/design_head.md + one section per property (from props.py, the notes below, evidence of the last run
of the quick checks) + seeded bugs + repaired defects.  Usage: python3 tools/mkdesign.py (after ./run.sh all)."""
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props  # noqa: E402
from design_notes import NOTES  # noqa: E402

out = [open(os.path.join(HERE, "design_head.md")).read().rstrip(), "", "## 5. Properties", ""]
seeds = {}
for m in sorted(glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json"))):
    seeds.setdefault(json.load(open(m))["property"], []).append((os.path.basename(os.path.dirname(m)), json.load(open(m))))
fixes = {}
known = []
for line in open(os.path.join(VERIF, "known_findings.jsonl")):
    if line.strip():
        r = json.loads(line)
        if "fixed" in r:
            w = r["fixed"].split(" ", 3)
            fixes.setdefault(w[1].split("=")[1], []).append((w[2], w[3]))
        else:
            known.append(r)
for p in props.PROPS:
    i = p["id"]
    out += ["### {} {}".format(i, p["title"]), "", p["statement"], ""]
    out.append("*Anchored in* " + "; ".join(p["anchors"]["files"]) + " (" + "; ".join(m["where"] for m in p["anchors"]["mechanism"]) + ").")
    out += ["", "*Decided by* " + props.CHECKS[i]["technique"] + ". " + props.CHECKS[i]["level_note"]]
    if i in NOTES:
        out += ["", NOTES[i].strip()]
    ev = os.path.join(VERIF, "evidence", i + ".json")
    if os.path.exists(ev):
        e = json.load(open(ev))
        if e["tier"] == "quick" and not e["violations"]:
            c = e["coverage"]
            out += ["", "*Quick bounds* ({} states, {} transitions, {:.0f} s on 8 cores):".format(c["states"], c["transitions"], max(1, e["wall_s"]))]
            out += ["- " + b for b in c["bounds"]]
            out += ["", "*Assumptions:* " + "; ".join(e["assumptions"]) + "."]
    if i in seeds:
        out += ["", "*Planted bugs caught:* " + "; ".join("`{}` ({})".format(n, m.get("needs", "").strip().rstrip(".")) for n, m in seeds[i]) + "."]
    if i in fixes:
        out += ["", "*Defects found and repaired:* " + "; ".join("{} ({})".format(w, h) for h, w in fixes[i]) + "."]
    k = [r for r in known if r["property"] == i]
    if k:
        out += ["", "*Known findings:* " + "; ".join("`{}`: {}".format(r["key"], r["what"]) for r in k) + "."]
    out.append("")
out.append(open(os.path.join(HERE, "design_tail.md")).read().rstrip())
with open(os.path.join(VERIF, "DESIGN.md"), "w") as f:
    f.write("\n".join(out) + "\n")
print(len(out), "lines")
