"""Mutation sweep: how much of the code's behaviour do the checks pin down?  (not used by any check)

usage: mutate.py list                 count the mutants
       mutate.py run OUT.jsonl [I/N]  for every mutant that passes the repository's tests, run the quick checks on a
                                      fraction of their cases until one reports a violation; write one line per mutant
"""
import ast, concurrent.futures as cf, glob, json, os, shutil, subprocess, sys, threading

REPO, PY = "/repo", "/opt/venv/bin/python"
SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*",
        ast.And: "or", ast.Or: "and", ast.BitAnd: "|", ast.BitOr: "&", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in", ast.FloorDiv: "/", ast.Mod: "*"}
NAMES = {"min": "max", "max": "min", "any": "all", "all": "any", "sin": "cos", "cos": "sin", "logical_and": "logical_or", "logical_or": "logical_and", "argmin": "argmax",
         "argmax": "argmin", "nanmin": "nanmax", "minimum": "maximum", "maximum": "minimum", "copy": None, "abs": None, "hstack": "vstack", "zeros": "ones", "ones": "zeros",
         "sort": None, "floor": "ceil", "ceil": "floor", "isfinite": "isnan", "deg2rad": "rad2deg", "repeat": "tile", "tile": "repeat"}


def mutants():
    for path in sorted(glob.glob(f"{REPO}/pyrayt/**/*.py", recursive=True) + glob.glob(f"{REPO}/tinygfx/**/*.py", recursive=True)):
        src = open(path).read()
        tree = ast.parse(src)
        starts = [0]
        for l in src.split("\n"):
            starts.append(starts[-1] + len(l.encode()) + 1)
        raw = src.encode()
        pos = lambda n: starts[n.lineno - 1] + n.col_offset
        end = lambda n: starts[n.end_lineno - 1] + n.end_col_offset
        docs = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                docs.add(n.body[0])
        out = []

        def add(a, b, new, what, n):
            out.append((a, b, new.encode() if isinstance(new, str) else new, what, n.lineno))

        def op_between(x, y, n, new):
            a, b = end(x), pos(y)
            gap = raw[a:b].decode()
            core = gap.strip("() \n\t\\")
            if not core or "#" in gap:
                return
            i = gap.index(core)
            add(a + len(gap[:i].encode()), a + len(gap[:i].encode()) + len(core.encode()), new, f"{core} -> {new}", n)

        for n in ast.walk(tree):
            if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
                op_between(n.left, n.right, n, SWAP[type(n.op)])
            elif isinstance(n, ast.Compare):
                xs = [n.left] + n.comparators
                for x, y, o in zip(xs, xs[1:], n.ops):
                    if type(o) in SWAP:
                        op_between(x, y, n, SWAP[type(o)])
            elif isinstance(n, ast.BoolOp):
                for x, y in zip(n.values, n.values[1:]):
                    op_between(x, y, n, SWAP[type(n.op)])
            elif isinstance(n, ast.UnaryOp):
                add(pos(n), pos(n.operand), "", "unary operator dropped", n)
            elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
                v = n.value
                if isinstance(v, bool):
                    add(pos(n), end(n), repr(not v), f"{v} -> {not v}", n)
                elif isinstance(v, int):
                    add(pos(n), end(n), repr(v + 1), f"{v} -> {v + 1}", n)
                    if v:
                        add(pos(n), end(n), repr(v - 1), f"{v} -> {v - 1}", n)
                else:
                    add(pos(n), end(n), repr(v * 1.02), f"{v} -> {v * 1.02}", n)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in NAMES:
                new = NAMES[n.func.attr]
                if new:
                    add(end(n.func) - len(n.func.attr), end(n.func), new, f"{n.func.attr} -> {new}", n)
                elif n.func.attr == "copy" and not n.args:
                    add(end(n.func.value), end(n), "", "copy dropped", n)
                elif n.args:
                    add(pos(n), end(n), b"(" + raw[pos(n.args[0]):end(n.args[0])] + b")", f"{n.func.attr} dropped", n)
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)) and n not in docs:
                add(pos(n), end(n), "pass", "statement dropped: " + raw[pos(n):end(n)].decode()[:60], n)
            elif isinstance(n, ast.IfExp):
                add(pos(n.test), end(n.test), "True", "condition -> True", n)
                add(pos(n.test), end(n.test), "False", "condition -> False", n)
            elif isinstance(n, ast.If) or isinstance(n, ast.While):
                add(pos(n.test), end(n.test), "True" if isinstance(n, ast.If) else "False", "condition forced", n)
                if isinstance(n, ast.If):
                    add(pos(n.test), end(n.test), "False", "condition -> False", n)
            elif isinstance(n, ast.keyword) and n.arg and isinstance(n.value, ast.Constant) and n.arg in ("axis", "keepdims"):
                pass
        for a, b, new, what, line in out:
            text = raw[:a] + new + raw[b:]
            try:
                t2 = ast.parse(text)
            except Exception:
                continue
            if ast.dump(t2) == ast.dump(tree):
                continue
            yield dict(path=os.path.relpath(path, REPO), line=line, what=what), text


ORDER = {"csg": "C07 C01 C06 C09 C29 C10 C25", "primitives": "C06 C08 C07 C31 C01 C27 C28 C09 C25", "operations": "C28 C05 C04 C31 C06", "world_objects": "C10 C06 C08 C14 C27 C25 C22",
         "bounding": "C09", "renderers": "C22 C30", "cameras": "C22", "materials": "C21 C05 C30", "components": "C15 C16 C17 C18 C19", "_pyrayt": "C02 C03 C01 C11 C12 C23 C26 C13",
         "utils": "C24 C19 C26", "color": "C31", "gooch": "C22 C31", "planar": "C26"}
ALL = [f"C{i:02d}" for i in range(1, 32)]
sys.path.insert(0, "/verif")
CASES = {}


def cases(pid):
    if pid not in CASES:
        import re
        CASES[pid] = int(re.search(r"QUICK, THOROUGH = (\d+)", open(f"/verif/mon/checks/{pid.lower()}.py").read())[1])
    return CASES[pid]


def sh(cmd, cwd, timeout, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, start_new_session=True)
    try:
        return p.communicate(timeout=timeout)[0], p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return "timeout", 99


def judge(item):
    k, (info, text) = item
    d = f"/tmp/mut/{threading.get_ident()}"
    if not os.path.exists(d):
        os.makedirs(d)
        subprocess.run(f"cp -a {REPO}/pyrayt {REPO}/tinygfx {REPO}/test {d}/; cp {REPO}/*.toml {REPO}/*.cfg {REPO}/setup.py {d}/ 2>/dev/null", shell=True)
    p = f"{d}/{info['path']}"
    keep = open(p, "rb").read()
    open(p, "wb").write(text)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=d, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg")
    try:
        out, rc = sh(f"{PY} -m pytest -q -x -p no:cacheprovider -o 'python_files=test_*.py int_test_*.py' test", d, 120, env)
        if rc != 0:
            return dict(info, n=k, status="tests")
        stem = os.path.basename(info["path"])[:-3]
        order = ORDER.get(stem, "").split()
        order += [p for p in ALL if p not in order]
        env.update(MON_REPO=d, VERIF_SEED="1", VERIF_TIER="quick")
        for frac in (0.04, 0.25):
            for pid in order if frac < 0.1 else ORDER.get(stem, "").split():
                n = max(6, int(cases(pid) * frac))
                out, rc = sh(f"{PY} run.py {pid} --cases {n} --jobs 1 --seed {1 + int(frac * 100)}", "/tmp/mut_verif", 400, env)
                if rc == 1:
                    return dict(info, n=k, status="caught", by=pid, frac=frac)
                if rc not in (0, 1):
                    return dict(info, n=k, status="hang/other", by=pid, out=out[-300:])
        return dict(info, n=k, status="SURVIVED")
    finally:
        open(p, "wb").write(keep)


if __name__ == "__main__":
    items = list(enumerate(mutants()))
    if sys.argv[1] == "list":
        import collections
        c = collections.Counter(i["path"] for _, (i, _) in items)
        print(len(items), dict(c))
    else:
        part = sys.argv[3].split("/") if len(sys.argv) > 3 else ("0", "1")
        items = [x for x in items if x[0] % int(part[1]) == int(part[0])]
        shutil.rmtree("/tmp/mut_verif", ignore_errors=True)
        subprocess.run("mkdir -p /tmp/mut_verif && cp -a /verif/mon /verif/run.py /verif/known_findings.txt /tmp/mut_verif/", shell=True)
        import random
        random.Random(0).shuffle(items)
        with cf.ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "8"))) as ex, open(sys.argv[2], "a") as f:
            for r in ex.map(judge, items):
                f.write(json.dumps(r) + "\n")
                f.flush()
