#!/usr/bin/env python3
"""Entry point of all checks.

    check.py C03 --tier quick|thorough     search; exit 0 or 1 with a VIOLATION line
    check.py --replay FILE                 execute a replay file again
"""
import os
import sys

PYTHON = "/opt/venv/bin/python"
ENV = {
    "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
    "MPLCONFIGDIR": "/tmp/tvsim-scratch/mpl", "TVSIM_CHILD": "1", "LC_ALL": "C.UTF-8",
}


def reexec():
    env = dict(os.environ)
    env.update({k: v for k, v in ENV.items() if not (k == "PYTHONHASHSEED" and "TVSIM_HASHSEED" in env)})
    if "TVSIM_HASHSEED" in env:
        env["PYTHONHASHSEED"] = env["TVSIM_HASHSEED"]
    for k in ("PYTHONPATH", "PYTHONSTARTUP", "PYTHONOPTIMIZE", "PYTHONWARNINGS"):
        env.pop(k, None)
    os.makedirs(ENV["MPLCONFIGDIR"], exist_ok=True)
    os.execve(PYTHON, [PYTHON, "-B", os.path.abspath(__file__), *sys.argv[1:]], env)


if __name__ == "__main__":
    if os.environ.get("TVSIM_CHILD") != "1" or sys.executable != PYTHON:
        reexec()
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from tvsim import runner
    sys.exit(runner.main(sys.argv[1:]))
