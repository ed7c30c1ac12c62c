"""Turns a list of planted-bug definitions into /verif/seeded/<id>/ and confirms each one.

usage: plant.py DEFS.py [ids...]     DEFS.py calls bug(id, prop, edits, needs, breaks, demo)
       plant.py --check [ids...]     re-runs the property's quick check against kept bugs
A bug is kept only if it applies, passes the repository's tests, and its demo passes without and
fails with the change.  Nothing here is used by a check.
"""
import json, os, shutil, subprocess, sys, concurrent.futures as cf

SEEDED, REPO, PY = "/verif/seeded", "/repo", "/opt/venv/bin/python"
DEMO_SH = '#!/bin/sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
HEAD = "import os, sys\nsys.path.insert(0, os.getcwd())\nimport matplotlib\nmatplotlib.use('Agg')\nimport numpy as np\n"
BUGS = {}


def bug(id, prop, edits, needs, breaks, demo):
    BUGS[id] = (prop, edits, needs, breaks, demo)


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def base_lines(path):
    out = sh(f"git blame -s --abbrev=7 {path}", REPO).stdout.splitlines()
    base = sh("git rev-list --max-parents=0 HEAD", REPO).stdout.strip()[:7]
    return {n for n, l in enumerate(out, 1) if l.lstrip("^").startswith(base)}


def make(id):
    prop, edits, needs, breaks, demo = BUGS[id]
    d = f"/tmp/plant/{id}"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", REPO, d], check=True)
    try:
        sh("git checkout -q -- .", d)
        for path, old, new in edits:
            text = open(f"{d}/{path}").read()
            if text.count(old) != 1:
                return id, f"BAD: text occurs {text.count(old)} times in {path}: {old[:50]!r}"
            open(f"{d}/{path}", "w").write(text.replace(old, new))
        diff = sh("git diff", d).stdout
        zero = sh("git diff -U0", d).stdout
        import re
        touched = []
        cur = None
        for l in zero.splitlines():
            if l.startswith("+++ b/"):
                cur = l[6:]
            m = re.match(r"@@ -(\d+)(?:,(\d+))?", l)
            if m:
                n = int(m[2] or 1)
                touched += [(cur, int(m[1]) + k) for k in range(n)]
        ok = [t for t in touched if t[1] in base_lines(t[0])]
        if not ok:
            return id, f"BAD: touches no original line ({touched})"
        out = f"{SEEDED}/{id}"
        tmp = f"/tmp/plant/{id}.demo"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(f"{tmp}/demo.py", "w").write(HEAD + demo.strip() + "\n")
        open(f"{tmp}/demo.sh", "w").write(DEMO_SH)
        os.chmod(f"{tmp}/demo.sh", 0o755)
        open(f"{tmp}/patch.diff", "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
                  open(f"{tmp}/meta.json", "w"), indent=1)
        r0 = sh(f"sh {tmp}/demo.sh", REPO, timeout=300)
        if r0.returncode != 0:
            return id, "BAD: demo fails unpatched: " + (r0.stdout + r0.stderr)[-400:]
        r1 = sh(f"sh {tmp}/demo.sh", d, timeout=300)
        if r1.returncode == 0:
            return id, "BAD: demo passes patched"
        t = sh(f"{PY} -m pytest -q -x -p no:cacheprovider -o 'python_files=test_*.py int_test_*.py' test 2>&1 | tail -3", d)
        if "failed" in t.stdout or "error" in t.stdout.lower() or "164 passed" not in t.stdout:
            return id, "BAD: tests: " + t.stdout[-200:]
        shutil.rmtree(out, ignore_errors=True)
        shutil.move(tmp, out)
        sh(f"rm -rf /tmp/plant/{id}.demo", "/tmp")
        return id, "kept; demo says: " + (r1.stdout + r1.stderr).strip().splitlines()[-1][:150]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(id, pid=None, extra=""):
    prop = pid or json.load(open(f"{SEEDED}/{id}/meta.json"))["property"]
    d = f"/tmp/plant/c_{id}_{prop}"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", REPO, d], check=True)
    try:
        r = sh(f"git checkout -q -- . && git apply {SEEDED}/{id}/patch.diff", d)
        if r.returncode:
            return id, prop, "NOAPPLY " + r.stderr[:100]
        env = dict(os.environ, MON_REPO=d, VERIF_SEED="1", VERIF_TIER="quick")
        r = sh(f"{PY} run.py {prop} {extra}", "/verif", env=env)
        line = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        good = r.returncode == 1 and any(f"property={prop} " in l + " " for l in line)
        return id, prop, ("CAUGHT" if good else f"MISSED rc={r.returncode}") + " " + r.stdout[-160:].replace("\n", " / ")
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--check":
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
        for id in ids:
            print(*check(id), flush=True)
    else:
        exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"), {"bug": bug})
        ids = sys.argv[2:] or list(BUGS)
        with cf.ThreadPoolExecutor(6) as ex:
            for r in ex.map(make, ids):
                print(*r, flush=True)
