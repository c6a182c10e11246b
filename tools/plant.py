"""
plant.py SPEC.py [--check]: make /verif/seeded/<id> from a spec with ID, PROP, FILE, EDITS, DEMO, NEEDS, BREAKS.
The change is verified in a scratch copy of /repo: demo passes without it and fails with it, the stable tests pass.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("PLANT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}
exec(open(sys.argv[1]).read(), spec)
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
top = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
repo = os.path.join(top, "repo")
try:
    shutil.copytree(REPO, repo, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
    edits = spec.get("EDITS")
    edits = {spec["FILE"]: edits} if not isinstance(edits, dict) else edits
    demo = os.path.join(top, "demo")
    os.mkdir(demo)
    for n, text in {"demo.py": spec["DEMO"], "demo.sh": '#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\n'
                    'export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg\n'
                    'tmp="$(mktemp -d)" || exit 2\ntrap \'rm -rf -- "$tmp"\' EXIT\n'
                    'export MPLCONFIGDIR="$tmp" DEMO_TMP="$tmp" PYTHONPATH="$PWD/src"\n'
                    'timeout 250 /opt/venv/bin/python "$here/demo.py"\n'}.items():
        open(os.path.join(demo, n), "w").write(text)
    run = lambda: subprocess.run(["bash", os.path.join(demo, "demo.sh")], cwd=repo, capture_output=True, text=True)
    r = run()
    assert r.returncode == 0, "demo fails on the unchanged tree:\n" + r.stdout[-1500:] + r.stderr[-1500:]
    for f, ed in edits.items():
        p = os.path.join(repo, f)
        s = open(p, newline="").read()
        for a, b in ed:
            if "\r\n" in s:
                a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
            assert s.count(a) == 1, (s.count(a), a)
            s = s.replace(a, b)
        open(p, "w", newline="").write(s)
    r = run()
    assert r.returncode != 0, "demo passes with the change"
    print("demo:", (r.stdout + r.stderr).strip().splitlines()[-1][:200])
    later = [json.loads(x)["fixed"].split()[2] for x in open(VERIF + "/known_findings.jsonl") if '"fixed"' in x]
    for f in edits:
        ours = set()
        for ln in subprocess.run(["git", "diff", "-U0", f], cwd=repo, capture_output=True, text=True).stdout.splitlines():
            if ln.startswith("@@"):
                a = ln.split()[1][1:].split(",")
                ours |= set(range(int(a[0]), int(a[0]) + int(a[1] if len(a) > 1 else 1)))
        assert ours, "nothing of the original is changed"
        bl = subprocess.run(["git", "blame", "-s", "-w", "--abbrev=40", "HEAD", "--", f], cwd=repo, capture_output=True, text=True).stdout.splitlines()
        for n in ours:
            assert not any(bl[n - 1].lstrip("^").startswith(h) for h in later), "line {} of {} was changed by a later commit: {}".format(n, f, bl[n - 1][:120])
    patch = subprocess.run(["git", "diff"], cwd=repo, capture_output=True).stdout
    env = dict(os.environ, PYTHONPATH=repo + "/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
               MPLCONFIGDIR=top, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", BROWSER="/bin/true")
    subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "-c", "tests/pytest.ini",
                    "--rootdir=" + repo, "-o", "junit_family=xunit2", "--junitxml=" + top + "/junit.xml", "tests"], cwd=repo, env=env, capture_output=True)
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", top + "/out.json", "junit:" + top + "/junit.xml"], capture_output=True)
    passed = set(json.load(open(top + "/out.json"))["passed"])
    missing = set(base) - passed
    assert not missing, "stable tests fail: {}".format(sorted(missing)[:4])
    subprocess.run(["git", "clean", "-fdq"], cwd=repo)
    r = subprocess.run([VERIF + "/run.sh", spec["PROP"]], env=dict(os.environ, REPO=repo), capture_output=True, text=True, cwd=VERIF)
    viol = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
    print("check {}: exit {} {} violations".format(spec["PROP"], r.returncode, len(viol)), (r.stdout.splitlines() + [""])[-3:-1] if not viol else "")
    if viol:
        i = r.stdout.splitlines().index(viol[0])
        print("   ", r.stdout.splitlines()[i - 1 if i else 0][:250])
    d = os.path.join(VERIF, "seeded", spec["ID"])
    os.makedirs(d, exist_ok=True)
    for n in ("demo.py", "demo.sh"):
        shutil.copy(os.path.join(demo, n), d)
    open(os.path.join(d, "patch.diff"), "wb").write(patch)
    json.dump({"property": spec["PROP"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("planted", spec["ID"], "CAUGHT" if viol and r.returncode == 1 else "MISSED")
finally:
    shutil.rmtree(top, ignore_errors=True)
