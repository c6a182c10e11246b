"""Regenerate the "fixed:" entries of known_findings.jsonl from the fix commits of /repo. Property of each fix, by its order."""
import json, subprocess, os
PROPS = ["U03", "U03", "U01", "U01", "P12", "P01", "P02", "P03", "P05", "P05", "P05", "P06", "P08", "P14", "P11", "B03", "B03", "B02",
         "B04", "B06", "B05", "B07", "B07", "B07", "B07", "B08", "B07", "B10", "B10", "B10", "B09", "B12", "R02", "R01", "R03", "R01",
         "R03", "R03", "R01", "R01", "R01"] + open(os.path.join(os.path.dirname(__file__), "fixed_more.txt")).read().split()
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = [l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"]).decode().splitlines()]
fixes = [(h, s[5:]) for h, s in log if s.startswith("fix: ")]
assert len(fixes) == len(PROPS), (len(fixes), len(PROPS))
path = os.path.join(HERE, "known_findings.jsonl")
old = [l for l in open(path).read().splitlines() if '"fixed"' not in l] if os.path.exists(path) else []
with open(path, "w") as f:
    for (h, s), p in zip(fixes, PROPS):
        f.write(json.dumps({"fixed": "fixed: property={} {} {}".format(p, h, s)}) + "\n")
    for l in old:
        f.write(l + "\n")
