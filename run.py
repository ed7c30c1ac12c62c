"""Entry point of every check:  python run.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MON_REPO", "/repo")

# deterministic, headless, and never reading or writing stale byte code of the code under test
os.environ["MPLBACKEND"] = "Agg"
if os.path.isdir("/opt/pyrayt/mplconfig"):
    os.environ.setdefault("MPLCONFIGDIR", "/opt/pyrayt/mplconfig")
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(ROOT, ".scratch", "nopyc")
sys.path[:0] = [REPO, ROOT]

import warnings

warnings.filterwarnings("ignore")

from mon import core

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:]))
