#!/opt/venv/bin/python
"""Entry point of every check:  run.py <ID> [--tier quick|thorough] [--replay FILE]

Runs in the project's interpreter against the working tree in /repo (never a copy, never stale byte code)."""
import os
import sys

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ["MPLBACKEND"] = "Agg"
if os.environ.get("PYTHONHASHSEED") != "0" or not sys.executable.startswith("/opt/venv/"):
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", "-P", os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-vp-pycache"      # never read byte code lying about in /repo
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vp import core  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:]))
