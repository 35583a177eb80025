"""Development tool: the same seed is the same execution.

Runs the first N scenarios of every property for several VERIF_SEED values in fresh interpreters,
with different numbers of workers, and compares the digests. The hash seed of Python is one of the
inputs of an execution (the package puts the clamped sides through a set of strings); checks pin it.
Under another hash seed only scenarios with several clamped sides may be another execution.

    determinism.py [N] [SEEDS]
"""
import importlib.util
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
if importlib.util.find_spec("numpy") is None:  # the interpreter of the checks
    os.execv("/opt/venv/bin/python", ["python", "-B", *sys.argv])
n = int(sys.argv[1]) if len(sys.argv) > 1 else 12
seeds = range(1, 1 + (int(sys.argv[2]) if len(sys.argv) > 2 else 4))
setups = [(8, "0"), (3, "0"), (5, "4242"), (2, "4242")]
total = bad = other = 0


def scenarios(prop, seed):
    from tvsim import runner
    checks = runner._prepare()
    return [checks.generate(prop, seed, i, "quick") for i in range(n)]


with tempfile.TemporaryDirectory(dir="/tmp") as tmp:
    for p in [f"C{k:02d}" for k in (*range(1, 17), 24, 25)]:
        for seed in seeds:
            res = []
            for jobs, hs in setups:
                out = os.path.join(tmp, "d.json")
                env = dict(os.environ, TVSIM_HASHSEED=hs, PYTHONHASHSEED=hs)
                env.pop("TVSIM_CHILD", None)
                subprocess.run([sys.executable, os.path.join(HERE, "check.py"), p, "--seed", str(seed),
                                "--jobs", str(jobs), "--digests", str(n), out], check=True, env=env)
                res.append(json.load(open(out)))
            for i in range(n):
                total += 1
                several = any(len(c.get("fix") or ()) > 1
                              for c in scenarios(p, seed)[i]["sims"])
                other += res[0][i] != res[2][i]
                if res[0][i] != res[1][i] or res[2][i] != res[3][i] or (
                        res[0][i] != res[2][i] and not several):
                    bad += 1
                    print(f"{p} seed {seed} scenario {i}: {[r[i][:60] for r in res]}", flush=True)
        print(p, "done", flush=True)
print(f"{total} scenarios, each executed {len(setups)} times in {len(setups) * 16 * len(seeds)} processes: "
      f"{bad} differ, {other} are another execution under another hash seed")
sys.exit(bool(bad))
