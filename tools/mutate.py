"""Development tool: automatic mutants of /repo/src in scratch copies, run against the checks.

    mutate.py OUT.jsonl [--n N] [--seed S] [--files a,b] [--scale X]

Surviving mutants (stable tests pass, no check raises an alarm) are either equivalent or a gap.
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
ORDER = {
    "simulation.py": ["C03", "C01", "C13", "C14", "C02", "C16", "C08", "C15", "C11", "C10"],
    "mechanical_step.py": ["C04", "C05", "C07", "C09", "C08", "C03", "C11", "C12", "C15"],
    "thermal_step.py": ["C04", "C06", "C07", "C10", "C08", "C12", "C03", "C11", "C15"],
    "helpers.py": ["C05", "C06", "C07", "C13", "C14", "C12"],
    "interpolation.py": ["C02", "C05", "C07", "C06", "C13", "C09"],
    "integrators.py": ["C05", "C06", "C07"],
    "quadrature_rules.py": ["C05", "C06", "C07"],
    "domain.py": ["C02", "C05", "C07", "C08", "C09", "C06", "C13", "C14"],
    "tensors.py": ["C05", "C02", "C07", "C06", "C13"],
    "bell_finite_element.py": ["C02", "C07"],
}
SWAP = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult,
        ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq,
        ast.And: ast.Or, ast.Or: ast.And, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.NotEq: ast.Eq,
        ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Pow: ast.Mult, ast.USub: ast.UAdd}


def sites(tree):
    out = []
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and \
                isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0].value))
    for k, n in enumerate(ast.walk(tree)):
        n._k = k
        if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
            out.append((k, "binop"))
        elif isinstance(n, ast.UnaryOp) and type(n.op) in SWAP:
            out.append((k, "unary"))
        elif isinstance(n, ast.Compare) and type(n.ops[0]) in SWAP:
            out.append((k, "compare"))
        elif isinstance(n, ast.BoolOp):
            out.append((k, "bool"))
        elif isinstance(n, ast.Constant) and id(n) not in doc and type(n.value) in (int, float):
            out.append((k, "const"))
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            out.append((k, "drop"))
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and not isinstance(n.targets[0] if isinstance(
                n, ast.Assign) else n.target, ast.Name):
            out.append((k, "drop"))
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(
                isinstance(a, ast.Starred) for a in n.args):
            out.append((k, "swapargs"))
        elif isinstance(n, ast.IfExp) or isinstance(n, ast.If):
            out.append((k, "negate"))
    return out


def mutate(src, k, kind, rng):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    n = nodes[k]
    line = n.lineno
    if kind in ("binop", "unary"):
        n.op = SWAP[type(n.op)]()
    elif kind == "compare":
        n.ops[0] = SWAP[type(n.ops[0])]()
    elif kind == "bool":
        n.op = SWAP[type(n.op)]()
    elif kind == "const":
        n.value = n.value + rng.choice([1, -1]) if isinstance(n.value, int) and not isinstance(
            n.value, bool) else n.value * rng.choice([1.01, 0.5, 2])
    elif kind == "drop":
        for m in nodes:
            for f in ("body", "orelse"):
                b = getattr(m, f, None)
                if isinstance(b, list) and n in b:
                    b[b.index(n)] = ast.copy_location(ast.Pass(), n)
    elif kind == "swapargs":
        j = rng.randrange(len(n.args) - 1)
        n.args[j], n.args[j + 1] = n.args[j + 1], n.args[j]
    elif kind == "negate":
        n.test = ast.UnaryOp(ast.Not(), n.test)
    return ast.unparse(ast.fix_missing_locations(tree)), line


def main():
    from importlib import util
    spec = util.spec_from_file_location("trial", os.path.join(HERE, "tools", "trial.py"))
    src_t = open(spec.origin).read().replace("\nmain()\n", "\n")
    trial = {}
    exec(compile(src_t, spec.origin, "exec"), {"__file__": spec.origin, "__name__": "trial"}, trial)
    p = argparse.ArgumentParser()
    p.add_argument("out")
    p.add_argument("--n", type=int, default=100)
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--files")
    p.add_argument("--scale", default="0.2")
    a = p.parse_args()
    rng = random.Random(a.seed)
    files = a.files.split(",") if a.files else list(ORDER)
    trial["stable_tests"].__globals__.update(trial)
    for count in range(a.n):
        f = files[count % len(files)]
        d = tempfile.mkdtemp(prefix="mutant", dir="/tmp")
        repo = os.path.join(d, "repo")
        try:
            subprocess.run(["git", "clone", "-q", "--shared", "/repo", repo], check=True)
            path = os.path.join(repo, "src/tvemoves_rufbad", f)
            src = open(path).read()
            ss = sites(ast.parse(src))
            k, kind = rng.choice(ss)
            new, line = mutate(src, k, kind, rng)
            old_lines, new_lines = ast.unparse(ast.parse(src)).splitlines(), new.splitlines()
            diff = [(x, y) for x, y in zip(old_lines, new_lines) if x != y][:2]
            open(path, "w").write(new)
            rec = {"file": f, "line": line, "kind": kind, "diff": diff}
            try:
                bad = trial["stable_tests"](repo)
            except Exception:
                bad = ["broken"]
            if bad:
                rec["result"] = "tests"
            else:
                rec["result"] = "SURVIVED"
                for c in ORDER[f]:
                    r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), c, "--tier",
                                        "quick", "--scale", a.scale], cwd=HERE, capture_output=True,
                                       text=True, env=dict(os.environ, TVSIM_REPO=repo,
                                                           TVSIM_NOMINIMISE="1"))
                    if r.returncode:
                        rec["result"] = f"{c} rc {r.returncode}"
                        rec["say"] = r.stdout.splitlines()[:1] + r.stderr.splitlines()[-1:]
                        break
        finally:
            shutil.rmtree(d, ignore_errors=True)
        with open(a.out, "a") as fh:
            fh.write(json.dumps(rec) + "\n")


main()
