"""Development tool: try a change of /repo in a scratch copy.

    trial.py PATCH|DIR... [--checks C01,C03] [--no-tests]

For a seeded directory: builds the scratch copy, runs the stable tests, the demonstration with and
without the change, and the check of the property (or --checks).  Never touches /repo.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def scratch(patch):
    d = tempfile.mkdtemp(prefix="trial", dir="/tmp")
    repo = os.path.join(d, "repo")
    sh(["git", "clone", "-q", "--shared", "/repo", repo])
    r = sh(["git", "-C", repo, "apply", patch])
    if r.returncode:
        print("patch does not apply", r.stderr)
    return d, repo


def stable_tests(repo):
    env = dict(os.environ, PYTHONPATH=f"{repo}/src", PYTHONHASHSEED="0", MPLBACKEND="Agg",
               PYTHONDONTWRITEBYTECODE="1")
    out = os.path.join(repo, "j.xml")
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "randomly", "--randomly-seed=0",
        "--randomly-dont-reorganize", "--timeout=300", "-o", "junit_family=xunit2",
        f"--junitxml={out}", "tests"], cwd=repo, env=env)
    want = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    ok = set()
    for c in ET.parse(out).getroot().iter("testcase"):
        if not list(c):
            ok.add(f"{c.get('classname')}::{c.get('name')}")
    os.remove(out)
    return [t for t in want if t not in ok]


def demo(d, repo):
    tmp = tempfile.mkdtemp(prefix="demo", dir="/tmp")
    dst = os.path.join(tmp, "x")
    shutil.copytree(d, dst, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    env = dict(os.environ)
    if repo != "/repo":
        env["PYTHONPATH"] = f"{repo}/src"
    r = sh(["bash", os.path.join(dst, "demo.sh")], cwd=repo, env=env)
    shutil.rmtree(tmp)
    return r.returncode, (r.stdout + r.stderr).strip()[-300:]


def main():
    p = argparse.ArgumentParser()
    p.add_argument("what", nargs="+")
    p.add_argument("--checks")
    p.add_argument("--no-tests", action="store_true")
    p.add_argument("--no-checks", action="store_true")
    p.add_argument("--scale", default="1")
    a = p.parse_args()
    for w in a.what:
        isdir = os.path.isdir(w)
        patch = os.path.abspath(os.path.join(w, "patch.diff") if isdir else w)
        d, repo = scratch(patch)
        try:
            print(f"== {w}", flush=True)
            if not a.no_tests:
                bad = stable_tests(repo)
                print("   stable tests:", "pass" if not bad else f"FAIL {bad}", flush=True)
                if isdir:
                    c, t = demo(w, "/repo")
                    print("   demo unchanged:", c, "" if c == 0 else t, flush=True)
                    c, t = demo(w, repo)
                    print("   demo patched:", c, "|", t.replace("\n", " / ")[-200:], flush=True)
            if a.no_checks:
                continue
            if a.checks:
                checks = a.checks.split(",")
            else:
                checks = [json.load(open(os.path.join(w, "meta.json")))["property"]]
            if checks == ["all"]:
                checks = [f"C{n:02d}" for n in (*range(1, 17), 24, 25)]
            for c in checks:
                r = sh([sys.executable, os.path.join(HERE, "check.py"), c, "--tier", "quick",
                        "--scale", a.scale], cwd=HERE, env=dict(os.environ, TVSIM_REPO=repo))
                lines = [x for x in r.stdout.splitlines() if not x.startswith("KNOWN")]
                print(f"   {c}: rc {r.returncode}", " / ".join(lines)[:420], r.stderr[-300:] if r.returncode > 1 else "",
                      flush=True)
        finally:
            shutil.rmtree(d)


main()
