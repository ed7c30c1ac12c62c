"""Case runner: seeding, worker processes, verdicts, replay files and evidence.

A check module defines
    RULE      how cases are made and what makes one non-trivial (text)
    QUICK, THOROUGH   number of cases per tier
    MINIMA    {counter: least total} - below it the run observed too little: inconclusive (exit 2)
    case(ctx) one execution of the workload under its monitors

Verdicts: 0 held on everything observed, 1 violated (VIOLATION line + replay file),
2 inconclusive (watchdog, or a monitor that observed too little).
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_CPU_S = 60  # processor time, so that a busy machine does not matter
CASE_LIMIT_S = 120  # watchdog of one case, its firing is inconclusive
RUN_LIMIT_S = {"quick": 600, "thorough": 6 * 3600}  # stop starting cases after this


class Violation(Exception):
    def __init__(self, message, key="", **data):
        super().__init__(message)
        self.message, self.key, self.data = message, key, data


class Watchdog(Exception):
    pass


class Ctx:
    """What one case sees: its random generator, counters, and the verdict."""

    def __init__(self, pid, tier, seed, index):
        self.pid, self.tier, self.seed, self.index = pid, tier, seed, index
        num = int(pid[1:])
        self.rng = np.random.default_rng([seed, num, index])
        self.np_seed = int(np.random.default_rng([seed, num, index, 7]).integers(2 ** 31))
        np.random.seed(self.np_seed)
        self.counts = {}
        self.trivial = True
        self.signature = None
        self.sample = None

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def observed(self, signature, sample=None):
        """The case is non-trivial; signature (any printable) tells distinct cases apart."""
        self.trivial = False
        self.signature = hashlib.sha1(repr(signature).encode()).hexdigest()[:16]
        if sample is not None:
            self.sample = sample

    def fail(self, message, key="", **data):
        raise Violation(message, key, **data)

    def require(self, condition, message, key="", **data):
        self.count("oracle_checks")
        if not condition:
            raise Violation(message() if callable(message) else message, key, **data)


def _plain(x, depth=0):
    if isinstance(x, dict):
        return {str(k): _plain(v, depth + 1) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return np.asarray(x, dtype=float).tolist() if x.dtype.kind in "fiub" and x.size < 400 else repr(x)[:400]
    if isinstance(x, (list, tuple)):
        return [_plain(v, depth + 1) for v in x][:200]
    if isinstance(x, (np.integer, int)) and not isinstance(x, bool):
        return int(x)
    if isinstance(x, (np.floating, float)):
        return float(x)
    if isinstance(x, (str, bool)) or x is None:
        return x
    return repr(x)[:400]


LARGE_IDS_FROM = 40  # cases from this one on run with object ids beyond 16 bits


def _alarm(signum, frame):
    raise Watchdog()


class Endless(Violation):
    pass


def _endless(signum, frame):
    raise Endless("hang", {})


def raise_ids(least=70000):
    """make the ids handed out from now on large, as they are in a long session"""
    import tinygfx.g3d.world_objects as wo
    make = getattr(wo, "CountedObject", wo.WorldObject)
    for _ in range(max(0, least - make().get_id())):
        make()


def run_case(module, pid, tier, seed, index):
    """-> (status, ctx, info) with status ok / violation / watchdog"""
    ctx = Ctx(pid, tier, seed, index)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT_S)
    hang = getattr(module, "HANG", None)  # what a case that never ends means, where the property rules it out
    if hang:
        signal.signal(signal.SIGPROF, _endless)
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        with np.errstate(all="ignore"):
            if index >= LARGE_IDS_FROM:
                raise_ids()
            module.case(ctx)
        return "ok", ctx, None
    except Watchdog:
        return "watchdog", ctx, dict(message=f"case {index} exceeded {CASE_LIMIT_S} s")
    except Endless:
        return "violation", ctx, dict(message=f"{hang} (over {CASE_CPU_S} s of processor time)", key="hang", data={})
    except Violation as v:
        return "violation", ctx, dict(message=v.message, key=v.key, data=_plain(v.data))
    except MemoryError:
        return "watchdog", ctx, dict(message="out of memory")
    except Exception as e:  # an exception nobody documented, from code that must not raise
        return "violation", ctx, dict(
            message=f"unexpected {type(e).__name__}: {e}", key="exception",
            data=dict(traceback=traceback.format_exc().splitlines()[-24:]))
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)


def _worker(module_name, pid, tier, seed, indices, deadline, queue, stop):
    module = importlib.import_module(module_name)
    out = dict(done=0, counts={}, signatures=set(), nontrivial=0, samples=[], bad=[], slowest=0.0)
    try:
        for index in indices:
            if stop.is_set() or time.time() > deadline:
                break
            began = time.process_time()
            status, ctx, info = run_case(module, pid, tier, seed, index)
            out["slowest"] = max(out["slowest"], time.process_time() - began)
            out["done"] += 1
            for k, v in ctx.counts.items():
                out["counts"][k] = out["counts"].get(k, 0) + v
            if not ctx.trivial:
                out["nontrivial"] += 1
                out["signatures"].add(ctx.signature)
                if ctx.sample is not None and len(out["samples"]) < 2:
                    out["samples"].append(dict(case=index, **_plain(ctx.sample)))
            if status != "ok":
                out["bad"].append((status, index, info))
                if status == "violation" and len([b for b in out["bad"] if b[0] == "violation"]) >= 3:
                    stop.set()
                    break
    except BaseException:
        out["bad"].append(("watchdog", -1, dict(message=traceback.format_exc())))
    queue.put(out)


def known_findings(pid):
    """Listed findings of this property: [(mechanism key, text)].  'fixed:' lines suppress nothing."""
    found = []
    path = os.path.join(ROOT, "known_findings.txt")
    for line in open(path) if os.path.exists(path) else []:
        parts = line.split(None, 3)
        if parts and parts[0] == "finding:" and parts[1] == f"property={pid}":
            found.append((parts[2].split("=", 1)[1], parts[3].strip()))
    return found


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    pid, tier, seed = a.property, a.tier, a.seed
    seed = abs(seed)
    t0 = time.time()
    module_name = f"mon.checks.{pid.lower()}"
    try:
        module = importlib.import_module(module_name)
    except Exception:
        # the code under test can no longer be imported or offers no such API
        traceback.print_exc()
        return _report_violation(pid, tier, seed, -1, dict(message="import failed", key="exception",
                                 data=dict(traceback=traceback.format_exc().splitlines()[-12:])))

    if a.replay:
        r = json.load(open(a.replay))
        status, ctx, info = run_case(module, pid, r["tier"], r["seed"], r["case"])
        print(json.dumps(dict(status=status, info=info), indent=1, default=repr))
        return {"ok": 0, "violation": 1}.get(status, 2)

    n = a.cases or (module.QUICK if tier == "quick" else module.THOROUGH)
    jobs = max(1, min(a.jobs, n))
    deadline = t0 + RUN_LIMIT_S.get(tier, 600)
    mp_ctx = mp.get_context("fork")
    queue, stop = mp_ctx.Queue(), mp_ctx.Event()
    workers = [mp_ctx.Process(target=_worker, daemon=True,
                              args=(module_name, pid, tier, seed, range(w, n, jobs), deadline, queue, stop))
               for w in range(jobs)]
    for w in workers:
        w.start()
    outs, missing = [], 0
    pending = set(range(jobs))
    while len(outs) + missing < jobs:
        try:
            outs.append(queue.get(timeout=5))
        except Exception:
            dead = sum(not w.is_alive() for w in workers)
            if dead == jobs and queue.empty():
                missing = jobs - len(outs)
    for w in workers:
        w.join(timeout=10)

    counts, signatures, samples, bad = {}, set(), [], []
    done = nontrivial = 0
    slowest = max([o["slowest"] for o in outs], default=0.0)
    for o in outs:
        done += o["done"]
        nontrivial += o["nontrivial"]
        signatures |= o["signatures"]
        samples += o["samples"]
        bad += o["bad"]
        for k, v in o["counts"].items():
            counts[k] = counts.get(k, 0) + v

    known = known_findings(pid)
    violations = sorted([b for b in bad if b[0] == "violation"], key=lambda b: b[1])
    unlisted = [b for b in violations if b[2].get("key") not in [k for k, _ in known] or not b[2].get("key")]
    short = {k: (counts.get(k, 0), m) for k, m in getattr(module, "MINIMA", {}).items()
             if counts.get(k, 0) < m * (1 if tier == "quick" else 2)} if not a.cases else {}
    inconclusive = [b for b in bad if b[0] == "watchdog"]

    wall = time.time() - t0
    evidence = dict(
        property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(evaluations=done, distinct_nontrivial=len(signatures), rule=" ".join(module.RULE.split()),
                      samples=sorted(samples, key=lambda s: s["case"])[:4] or [dict(none="no sample recorded")],
                      monitors=dict(sorted(counts.items())), planned_cases=n,
                      minima=getattr(module, "MINIMA", {})),
        assumptions=list(getattr(module, "ASSUMPTIONS", [])) or ["numpy longdouble arithmetic of the reference model"],
        wall_s=round(wall, 2), slowest_case_cpu_s=round(slowest, 2), violations=len(unlisted))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    path = os.path.join(ROOT, "evidence", f"{pid}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(path + ".tmp", path)

    for key, text in known:
        print(f"KNOWN-FINDING: property={pid} {text}")
    print(f"{pid} {tier} seed={seed}: {done}/{n} cases, {len(signatures)} distinct, {wall:.1f} s (slowest case {slowest:.1f} s), "
          + ", ".join(f"{k}={v}" for k, v in sorted(counts.items())))
    if unlisted:
        for b in unlisted[:3]:
            _report_violation(pid, tier, seed, b[1], b[2])
        return 1
    if missing or inconclusive or short or done < n:
        for b in inconclusive[:3]:
            print("INCONCLUSIVE", b[2]["message"])
        if short:
            print("INCONCLUSIVE monitors observed too little (seen, least):", short)
        if missing:
            print("INCONCLUSIVE", missing, "worker(s) died")
        if done < n:
            print("INCONCLUSIVE only", done, "of", n, "cases ran")
        return 2
    return 0


def _report_violation(pid, tier, seed, index, info):
    folder = os.path.join(ROOT, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{pid}-{tier}-{seed}-{index}.json")
    with open(path, "w") as f:
        json.dump(dict(property=pid, tier=tier, seed=seed, case=index, **info), f, indent=1, default=repr)
    print(f"  case {index}: {info['message'][:600]}")
    print(f"VIOLATION property={pid} replay={os.path.relpath(path, ROOT)}", flush=True)
    return 1
