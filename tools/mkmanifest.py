import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); verif = os.path.dirname(here)
sys.path.insert(0, here)
import props
done = {f[:-3].upper() for f in os.listdir(os.path.join(verif, "mc", "checks")) if f[0] in "ubprg" and f.endswith(".py")}
done |= {f[:-3].upper() for f in os.listdir(os.path.join(verif, "mc", "checks")) if f.endswith(".py") and not f.startswith("_")}
with open(os.path.join(verif, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in props.PROPS:
    i = p["id"]
    if i in done:
        c = {"property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i}
        c.update(props.CHECKS[i])
        checks.append(c)
    else:
        na.append({"property": i, "reason": getattr(props, "NA", {}).get(i, "check not built yet")})
man = {"version": 1, "setup_cmd": "chmod +x run.sh && /opt/venv/bin/python -m compileall -q mc >/dev/null 2>&1; true", "checks": checks, "not_applicable": na,
       "notes": "Checks import /repo/src directly (pure Python); no hooks in /repo. See DESIGN.md."}
json.dump(man, open(os.path.join(verif, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    ms = json.load(open("/root/.vp/MANIFEST.schema.json")); ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    jsonschema.validate(man, ms)
    for p in props.PROPS:
        jsonschema.validate(p, ps); assert len(p["title"]) <= 80, p["id"]
    print("valid:", len(checks), "checks,", len(na), "not claimed", set(done) - {p["id"] for p in props.PROPS})
except ImportError:
    print("written, not validated")
