#!/opt/venv/bin/python
"""Entry point of every check:  run_check.py <PROPERTY> [quick|thorough]."""
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
WANT = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1", "MPLBACKEND": "Agg", "SYMX_ENV": "1", "PYTHONWARNINGS": "ignore"}
for _n in ("TRIAL", "SEED_SNAPSHOT", "OPTIMIZER_INFO", "OPTIMIZER_STATE", "GLOBAL_ERR"):
    WANT[f"NEPS_{_n}_FILELOCK_TIMEOUT"] = "6"
    WANT[f"NEPS_{_n}_FILELOCK_POLL"] = "0.02"
if os.environ.get("SYMX_ENV") != "1":
    os.environ.update(WANT)
    os.execv(PY, [PY, os.path.abspath(__file__), *sys.argv[1:]])

sys.path.insert(0, VERIF)
sys.setrecursionlimit(5000)
from symx import runner  # noqa: E402

if sys.argv[1] == "--replay":
    runner.replay_main(sys.argv[2:4])
else:
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(runner.run(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1"))))
