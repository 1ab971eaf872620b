"""Plant-a-bug helper (development tool, not a check).

    python3 tools/plant.py SPEC.py          validate every spec in the file and store it under seeded/
    python3 tools/plant.py --run [ID ...]   run the matching checks against each stored change (scratch copy)

A SPEC file defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new), ...], demo=python source)].
All work happens in /tmp/plant-*; /repo is never touched.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = json.load(open("/opt/vp/BASELINE.json"))
SEED = os.path.join(ROOT, "seeded")


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, timeout=timeout)


def scratch():
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    subprocess.check_call(["cp", "-a", "/repo/.", d])
    return d


def tests_pass(d):
    r = sh(f"{PY} -m pytest -q -p no:cacheprovider -x --timeout=300 2>&1 | tail -5", d,
           {"PYTHONPATH": os.path.join(d, "src")})
    return ("failed" not in r.stdout and "error" not in r.stdout and "293 passed" in r.stdout), r.stdout


def validate(bug):
    d = scratch()
    try:
        out = os.path.join(SEED, bug["id"])
        tmp = tempfile.mkdtemp(prefix="plantdemo-", dir="/tmp")
        with open(os.path.join(tmp, "demo.py"), "w") as f:
            f.write(bug["demo"])
        with open(os.path.join(tmp, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\n# cwd: the repository\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src"\n'
                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        r0 = sh(f"bash {tmp}/demo.sh", d)
        if r0.returncode != 0:
            return bug["id"], "demo fails on the unchanged tree:\n" + r0.stdout
        for file, old, new in bug["edits"]:
            p = os.path.join(d, file)
            s = open(p).read()
            if s.count(old) != 1:
                return bug["id"], f"{s.count(old)} matches in {file}: {old!r}"
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", d).stdout
        ok, log = tests_pass(d)
        if not ok:
            return bug["id"], "tests catch it:\n" + log
        r1 = sh(f"bash {tmp}/demo.sh", d)
        if r1.returncode == 0:
            return bug["id"], "demo passes with the change"
        os.makedirs(out, exist_ok=True)
        for n in ("demo.py", "demo.sh"):
            shutil.copy(os.path.join(tmp, n), os.path.join(out, n))
        with open(os.path.join(out, "patch.diff"), "w") as f:
            f.write(diff)
        with open(os.path.join(out, "meta.json"), "w") as f:
            json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, f, indent=1)
            f.write("\n")
        shutil.rmtree(tmp)
        return bug["id"], "ok   " + (r1.stdout.strip().splitlines() or ["(no output)"])[-1][:150]
    finally:
        shutil.rmtree(d)


def run_one(bid, props=None):
    d = scratch()
    try:
        meta = json.load(open(os.path.join(SEED, bid, "meta.json")))
        r = sh(f"git apply {SEED}/{bid}/patch.diff", d)
        if r.returncode:
            return bid, meta["property"], "patch does not apply: " + r.stdout
        res = []
        for prop in props or [meta["property"]]:
            wd = tempfile.mkdtemp(prefix="plantv-", dir="/tmp")
            subprocess.check_call(f"cp -a {ROOT}/run.sh {ROOT}/harness {ROOT}/checks {ROOT}/refdata {wd}/", shell=True)
            for fn in ("KNOWN_FINDINGS.txt",):
                if os.path.exists(os.path.join(ROOT, fn)):
                    shutil.copy(os.path.join(ROOT, fn), wd)
            r = sh(f"bash run.sh {prop} quick", wd, {"VERIF_REPO": d, "VERIF_SEED": "1", "VERIF_PROCS": "4"}, 1800)
            caught = r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout
            msg = [ln for ln in r.stdout.splitlines() if ln.startswith("  ") and not ln.startswith("  - ")]
            res.append(f"{prop}:{'CAUGHT' if caught else 'missed rc=%d' % r.returncode}"
                       + (" " + msg[0].strip()[:160] if msg else "" if r.returncode != 2 else r.stdout[-600:]))
            shutil.rmtree(wd)
        return bid, meta["property"], " | ".join(res)
    finally:
        shutil.rmtree(d)


def main():
    if sys.argv[1] == "--run":
        ids = [a for a in sys.argv[2:] if not a.startswith("-C")]
        props = [a[1:] for a in sys.argv[2:] if a.startswith("-C")]
        ids = ids or sorted(os.listdir(SEED))
        with ThreadPoolExecutor(2) as ex:
            for r in ex.map(lambda b: run_one(b, props), ids):
                print(*r, flush=True)
        return
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    sel = sys.argv[2:]
    bugs = [b for b in ns["BUGS"] if not sel or b["id"] in sel]
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(validate, bugs):
            print(*r, flush=True)


if __name__ == "__main__":
    main()
