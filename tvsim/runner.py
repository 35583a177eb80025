"""Seeded search, minimisation, replay files and evidence."""

import argparse
import copy
import gc
import hashlib
import json
import logging
import os
import pickle
import select
import signal
import subprocess
import sys
import tempfile
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")

# scenarios per check and tier, tuned to about half a minute on eight cores
QUICK = {
    "C01": 260, "C02": 230, "C03": 230, "C04": 260, "C05": 380, "C06": 380, "C07": 100, "C08": 220,
    "C09": 210, "C10": 280, "C11": 240, "C12": 320, "C13": 150, "C14": 200, "C15": 120, "C16": 190,
    "C24": 150, "C25": 150,
}
THOROUGH_FACTOR = 25
SOFT_LIMIT = {"quick": 420.0, "thorough": 3000.0}   # stop launching scenarios
CHILD_LIMIT = 700.0
CPU_LIMIT = 400.0    # endless loops of the code under test; scenarios take a few seconds


def _prepare():
    """Import everything once; children are forked from here."""
    sys.dont_write_bytecode = True
    import matplotlib.pyplot  # noqa: F401
    import pyomo.environ  # noqa: F401
    import sympy  # noqa: F401
    import tqdm  # noqa: F401
    # compiled files next to the sources of the code under test might be stale
    sys.pycache_prefix = "/nonexistent/tvsim"
    from . import checks, driver, fresh, world  # noqa: F401
    logging.getLogger("pyomo").setLevel(logging.CRITICAL + 1)
    logging.getLogger("matplotlib").setLevel(logging.CRITICAL + 1)
    import warnings
    warnings.simplefilter("ignore")
    world.LINES.install()
    gc.collect()
    gc.freeze()
    return checks


def summarise(run):
    faults, kinds, steps, solves, sim_time, lines, ops = {}, {}, 0, 0, 0.0, {}, 0
    digest = hashlib.sha256()
    shapes = hashlib.sha256()
    states = set()
    sched = 0
    for t in run.traces:
        for f in t.world.fired:
            k = f"{f[1]}:{f[3]}"
            faults[k] = faults.get(k, 0) + 1
        for r in t.ops:
            ops += 1
            if r.line_hit:
                lines[r.line_hit] = lines.get(r.line_hit, 0) + 1
            digest.update(repr((r.index, r.ok, r.etype, r.before, r.after, r.line_hit)).encode())
        for s in t.sims:
            steps += len(s.snaps)
            solves += len(s.records)
            if len(s.snaps) > 1:
                sim_time += (len(s.snaps) - 1) / float(s.cfg["fps"])
            for rec in s.records:
                digest.update(repr((rec.kind, rec.step, rec.outcome)).encode())
                digest.update(np.round(rec.start, 12).tobytes())
                digest.update(rec.values.tobytes())
                states.add(hashlib.sha256(np.round(rec.start, 9).tobytes()
                                          + rec.kind.encode()).hexdigest()[:12])
            for snap in s.snaps:
                digest.update(snap["y"].tobytes() + snap["theta"].tobytes())
        log = repr(t.world.log).encode()
        digest.update(log)
        shapes.update(log)
        sched += len(getattr(t, "decisions", ()))
    return {"faults": faults, "steps": steps, "solves": solves, "sim_time": sim_time, "lines": lines,
            "ops": ops, "executions": len(run.traces), "compared": run.compared, "known": run.known,
            "notes": run.notes, "digest": digest.hexdigest(), "shape": shapes.hexdigest()[:16],
            "states": states, "switches": sched}


def child_judge(scenario):
    from . import checks, fresh, world

    def stuck(*_):
        raise world.HarnessLimit(f"an operation did not end within {CPU_LIMIT:.0f} s of processor time")

    if scenario["prop"] in checks.WITH_TWIN:
        fresh.start(CPU_LIMIT)

    signal.signal(signal.SIGVTALRM, stuck)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT, 5.0)
    v, run = checks.judge(scenario)
    signal.setitimer(signal.ITIMER_VIRTUAL, 0.0)
    st = summarise(run)
    st["cpu"] = time.process_time() + fresh.stop()
    return {"violation": v, "stats": st}


def portable(scenario):
    """What a history consists of, in a form that can be compared between interpreters."""
    from . import driver
    t = driver.execute(scenario, 10 ** 6)
    out = []
    for s in t.sims:
        out.append({
            "records": [(r.kind, r.step, r.outcome, r.start, r.lb, r.ub, r.fixed, r.values)
                        for r in s.records],
            "snaps": s.snaps, "calls": [(c[0], c[3]) for c in s.calls],
            "ops": [(r.ok, r.etype, r.after) for r in s.ops]})
    return out


def portable_difference(a, b):
    from .analysis import close, same_snap, values_close
    for i, (x, y) in enumerate(zip(a, b)):
        if x["ops"] != y["ops"]:
            return f"simulation {i}: operations end differently"
        if len(x["records"]) != len(y["records"]):
            return f"simulation {i}: {len(x['records'])} solver calls instead of {len(y['records'])}"
        for p, q in zip(x["records"], y["records"]):
            if p[:3] != q[:3]:
                return f"simulation {i}: solver call {p[:3]} instead of {q[:3]}"
            if any(not close(u, v) for u, v in zip(p[3:6], q[3:6])) or not np.array_equal(p[6], q[6]):
                return f"simulation {i}: {p[0]} problem of step {p[1]} has other starting values or bounds"
            if values_close(p[7], q[7]) not in (True, None):
                return f"simulation {i}: {p[0]} problem of step {p[1]} has another objective"
        if len(x["snaps"]) != len(y["snaps"]):
            return f"simulation {i}: histories of different length"
        for k, (u, v) in enumerate(zip(x["snaps"], y["snaps"])):
            why = same_snap(u, v)
            if why:
                return f"simulation {i}: step {k} differs: {why}"
        # the order of the nodes in which traction is consulted is not part of the promise
        if sorted(x["calls"]) != sorted(y["calls"]):
            return f"simulation {i}: loads were consulted differently"
    return None


class Child:
    def __init__(self, task, fn, arg):
        self.task = task
        self.buf = b""
        self.t0 = time.monotonic()
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                os.close(r)
                devnull = os.open(os.devnull, os.O_RDWR)
                for fd in (0, 1, 2):
                    os.dup2(devnull, fd)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                try:
                    out = {"ok": True, "value": fn(arg)}
                except BaseException:  # noqa: BLE001
                    out = {"ok": False, "error": traceback.format_exc()[-4000:]}
                data = pickle.dumps(out)
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            except BaseException:  # noqa: BLE001
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        self.fd = r

    def finish(self):
        os.close(self.fd)
        os.waitpid(self.pid, 0)
        try:
            return pickle.loads(self.buf)
        except Exception:  # noqa: BLE001
            return {"ok": False, "error": "child died without an answer"}

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.close(self.fd)
        os.waitpid(self.pid, 0)


def parallel(tasks, fn, jobs, on_result, until=None, limit=CHILD_LIMIT):
    """tasks: iterable of (id, arg).  on_result(id, arg, result) -> True to stop launching."""
    it = iter(tasks)
    live = {}
    stop = False
    exhausted = False
    while live or not (stop or exhausted):
        while not stop and not exhausted and len(live) < jobs:
            if until is not None and time.monotonic() > until:
                stop = True
                break
            try:
                tid, arg = next(it)
            except StopIteration:
                exhausted = True
                break
            c = Child(tid, fn, arg)
            c.arg = arg
            live[c.fd] = c
        if not live:
            break
        ready, _, _ = select.select(list(live), [], [], 1.0)
        for fd in ready:
            c = live[fd]
            data = os.read(fd, 1 << 20)
            if data:
                c.buf += data
                continue
            del live[fd]
            if on_result(c.task, c.arg, c.finish()):
                stop = True
        now = time.monotonic()
        for fd, c in list(live.items()):
            if now - c.t0 > limit:
                del live[fd]
                c.kill()
                if on_result(c.task, c.arg, {"ok": False, "error": f"no answer within {limit} s"}):
                    stop = True
    return exhausted


def heaviness(sc):
    """Rough estimate of what a scenario costs."""
    total = 0
    for k, c in enumerate(sc["sims"]):
        cells = (c["w"] / c["scale"]) * (c["h"] / c["scale"])
        steps = sum(max(op.get("n", 1), 1) for op in sc["ops"] if op.get("sim", 0) == k
                    and op["op"] in ("run", "reach"))
        if c.get("reg") is None:
            total += 0.05 * cells * (3 + steps)
        else:
            total += cells * (c.get("r") or 1) ** 2 * (3 + steps)
    return total


def one(fn, arg, limit=CHILD_LIMIT):
    box = []
    parallel([(0, arg)], fn, 1, lambda t, a, r: box.append(r), limit=limit)
    return box[0]


# --- minimisation ----------------------------------------------------------------------------

def smaller(sc):
    """Simpler variants of a scenario, most promising first."""
    ops = sc["ops"]
    nsims = len(sc["sims"])
    if nsims > 1:
        for k in range(nsims):
            if nsims - 1 >= 1:
                s = copy.deepcopy(sc)
                del s["sims"][k]
                s["ops"] = [dict(o, sim=o["sim"] - (o["sim"] > k)) for o in s["ops"] if o["sim"] != k]
                yield s
    for key in ("threads", "share"):
        if sc.get(key):
            s = copy.deepcopy(sc)
            s.pop(key)
            yield s
    # whole suffixes, then single operations
    n = len(ops)
    for cut in (n // 2, n // 4, 1):
        if cut and n - cut >= 1:
            s = copy.deepcopy(sc)
            s["ops"] = s["ops"][: n - cut]
            yield s
    for k in range(n):
        op = ops[k]
        if op["op"] == "construct" and not op.get("faults"):
            continue
        s = copy.deepcopy(sc)
        del s["ops"][k]
        yield s
    for k in range(n):
        if ops[k].get("faults"):
            s = copy.deepcopy(sc)
            s["ops"][k].pop("faults")
            yield s
    for k in range(n):
        if ops[k]["op"] in ("run", "reach") and ops[k]["n"] > 1:
            for m in {1, ops[k]["n"] // 2, ops[k]["n"] - 1} - {0}:
                s = copy.deepcopy(sc)
                s["ops"][k]["n"] = m
                s["ops"][k].pop("default", None)
                yield s
        for key in ("kw", "default"):
            if ops[k].get(key) and (key == "kw" or ops[k].get("n") == 1):
                s = copy.deepcopy(sc)
                s["ops"][k].pop(key)
                yield s
        for j, f in enumerate(ops[k].get("faults", ())):
            if f.get("nth", 1) > 1:
                for m in {1, f["nth"] // 2, f["nth"] - 1} - {0}:
                    s = copy.deepcopy(sc)
                    s["ops"][k]["faults"][j]["nth"] = m
                    yield s
            if f.get("times", 1) > 1:
                s = copy.deepcopy(sc)
                s["ops"][k]["faults"][j].pop("times")
                yield s
            if f["site"] == "line":
                s = copy.deepcopy(sc)
                s["ops"][k]["faults"][j] = {"site": "solver", "nth": 1, "kind": "crash"}
                yield s
    for k, cfg in enumerate(sc["sims"]):
        def alt(**kw):
            s = copy.deepcopy(sc)
            s["sims"][k].update(kw)
            return s
        from . import generate as g, reference as ref
        for key in ("traction", "ext"):
            if cfg.get(key):
                yield alt(**{key: None})
        if cfg.get("mode") == "wire":
            yield alt(mode="plugin", **{})
        for wh in ({"w": cfg["scale"], "h": cfg["scale"]}, {"w": cfg["scale"]}, {"h": cfg["scale"]}):
            if any(cfg[a] != b for a, b in wh.items()):
                c = dict(cfg, **wh)
                m = g.mesh_of(c)
                if len(ref.clamped_vertices(m, c.get("fix"))) < m.n:
                    yield alt(**wh)
        if cfg.get("fix"):
            yield alt(fix=None)
            if isinstance(cfg["fix"], list):
                for j in range(len(cfg["fix"])):
                    yield alt(fix=cfg["fix"][:j] + cfg["fix"][j + 1:])
        if cfg["scale"] != 1.0 and not cfg.get("reg"):
            f = 1.0 / cfg["scale"]
            yield alt(scale=1.0, w=round(cfg["w"] * f, 6), h=round(cfg["h"] * f, 6))
        if cfg["fps"] != 1:
            yield alt(fps=1)
        if cfg.get("r") and cfg.get("reg") is None:
            yield alt(r=None)
        elif (cfg.get("r") or 1) > 1:
            yield alt(r=1)
        for key, v in (("theta0", 1.0), ("radius", 10.0), ("relax", 0.0)):
            if key in cfg and cfg[key] != v:
                yield alt(**{key: v})


def valid(sc):
    for k in range(len(sc["sims"])):
        ops = [o for o in sc["ops"] if o["sim"] == k]
        if not ops or not any(o["op"] == "construct" for o in ops):
            return False
        if sc.get("threads") and ops[0]["op"] != "construct":
            return False
    return True


def minimise(sc, first, seconds, jobs):
    """Greedy: take the first simpler scenario that still violates the property."""
    from . import generate
    best, what = sc, first
    end = time.monotonic() + seconds
    tried = 0
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        cand = [generate.fix_faults(c) for c in smaller(best) if valid(c)]
        # evaluate in order, in parallel batches; take the earliest success (deterministic)
        for b in range(0, len(cand), jobs):
            if time.monotonic() > end:
                break
            batch = cand[b:b + jobs]
            got = {}

            def note(t, a, r, got=got):
                got[t] = r
                return False
            parallel(list(enumerate(batch)), child_judge, jobs, note, limit=60.0)
            tried += len(batch)
            hit = next((k for k in range(len(batch))
                        if got.get(k, {}).get("ok") and got[k]["value"]["violation"]), None)
            if hit is not None:
                best, what = batch[hit], got[hit]["value"]
                progress = True
                break
    return best, what, tried


# --- checks ----------------------------------------------------------------------------------

def load_known():
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                if line.startswith("open:"):
                    parts = dict(p.split("=", 1) for p in line.split()[1:3])
                    text = line.split(None, 3)[3].strip()
                    out[parts["id"]] = (parts["property"], text)
    return out


def fresh(args, env=None, timeout=280):
    e = dict(os.environ)
    e.pop("TVSIM_CHILD", None)
    e.update(env or {})
    return subprocess.run([sys.executable, "-B", os.path.join(VERIF, "check.py"), *args], env=e,
                          capture_output=True, text=True, timeout=timeout)


def write_replay(prop, seed, index, sc, original, result, tried, log):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{prop}-seed{seed}-{index}.json")
    with open(path, "w") as f:
        json.dump({
            "property": prop, "verif_seed": seed, "scenario_index": index,
            "violation": result["violation"]["what"],
            "details": {k: (v if isinstance(v, (int, float, str)) else repr(v))
                        for k, v in result["violation"]["details"].items()},
            "digest": result["stats"]["digest"], "minimisation_runs": tried,
            "scenario": sc, "original_scenario": original, "trace": log,
        }, f, indent=1)
    return path


def event_log(sc):
    """The schedule and fault trace of the scenario itself (first execution of its judge)."""
    from . import driver
    try:
        t = driver.execute(sc, 10 ** 4)
    except BaseException as e:  # noqa: BLE001
        return [repr(e)]
    return [list(map(str, e)) for e in t.world.log][:400]


def hashseed_check(prop, seed, tier, jobs, log):
    """Fresh interpreters under other hash seeds must give the same histories (C15)."""
    from . import checks
    n = 24 if tier == "quick" else 200
    scs = [checks.generate(prop, seed, 100000 + i, tier) for i in range(n)]
    for s in scs:
        s.pop("threads", None)
    seeds = [str(1 + seed * 7 % 1000), "4242"] if tier == "quick" else \
        [str(1 + (seed * 7 + k * 131) % 100000) for k in range(6)]
    tmp = tempfile.mkdtemp(dir=_scratch())
    src = os.path.join(tmp, "scenarios.pkl")
    with open(src, "wb") as f:
        pickle.dump(scs, f)
    procs = []
    for s in seeds:
        env = dict(os.environ, TVSIM_HASHSEED=s, PYTHONHASHSEED=s)
        env.pop("TVSIM_CHILD", None)
        out = os.path.join(tmp, f"out{s}.pkl")
        procs.append((s, out, subprocess.Popen(
            [sys.executable, "-B", os.path.join(VERIF, "check.py"), "--batch", src, out, "--jobs",
             str(max(1, jobs // (len(seeds) + 1)))],
            env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    mine = run_batch(scs, max(1, jobs // (len(seeds) + 1)))
    bad = None
    executed = len(scs)
    for s, out, p in procs:
        try:
            rc = p.wait(timeout=240)
        except subprocess.TimeoutExpired:
            p.kill()
            raise RuntimeError("fresh interpreter did not finish")
        if rc != 0:
            raise RuntimeError(f"fresh interpreter with hash seed {s} ended with {rc}")
        with open(out, "rb") as f:
            theirs = pickle.load(f)
        executed += len(theirs)
        for k, sc in enumerate(scs):
            a, b = mine[k], theirs[k]
            if not a["ok"] or not b["ok"]:
                if a["ok"] != b["ok"]:
                    why = f"fails only in one interpreter: {a.get('error', '')}{b.get('error', '')}"[-600:]
                    if bad is None:
                        bad = (s, sc, why)
                continue
            why = portable_difference(a["value"], b["value"])
            if why and bad is None:
                bad = (s, sc, why)
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    return {"hash seeds": seeds, "scenarios": len(scs), "executions": executed}, bad


def run_batch(scs, jobs):
    res = {}
    parallel(list(enumerate(scs)), portable, jobs, lambda t, a, r: res.__setitem__(t, r) and False)
    return [res[k] for k in range(len(scs))]


def _scratch():
    d = "/tmp/tvsim-scratch"
    os.makedirs(d, exist_ok=True)
    return d


COMPONENTS = {
    "real": ["tvemoves_rufbad (all modules, from /repo/src)", "Pyomo modelling layer",
             "Pyomo OptSolver.solve (plugin mode)",
             "Pyomo IPOPT plugin, NL writer and SOL reader (wire mode)", "matplotlib figures and "
             "FFMpegWriter", "tqdm", "sympy, numpy"],
    "stub": ["IPOPT process (simulated solver answers)", "load callbacks (scripted functions)",
             "progress-bar clock and stderr", "image and video files, ffmpeg process",
             "Ctrl-C (KeyboardInterrupt at chosen lines or calls)", "caller threads' scheduler"],
}


def run_check(prop, tier, seed, jobs, scale=1.0):
    t0 = time.monotonic()
    checks = _prepare()
    known = load_known()
    total = int(QUICK[prop] * scale) * (THOROUGH_FACTOR if tier == "thorough" else 1)
    until = t0 + SOFT_LIMIT[tier]
    agg = {"faults": {}, "lines": {}, "notes": {}, "steps": 0, "solves": 0, "sim_time": 0.0,
           "compared": 0, "executions": 0, "ops": 0, "switches": 0,
           "slowest": 0.0}
    shapes, states, known_seen = set(), set(), {}
    digests, cost = {}, {}
    samples = []
    errors, found = [], []
    evaluated = 0

    def tasks():
        # the long ones first, so that none of them is left over at the end
        for k in range(0, total, 400):
            block = [(i, checks.generate(prop, seed, i, tier)) for i in range(k, min(k + 400, total))]
            yield from sorted(block, key=lambda x: -heaviness(x[1]))

    def on_result(i, sc, res):
        nonlocal evaluated
        if not res["ok"]:
            errors.append((i, sc, res["error"]))
            return len(errors) > 12
        evaluated += 1
        st = res["value"]["stats"]
        for k in ("faults", "lines", "notes"):
            for a, b in st[k].items():
                agg[k][a] = agg[k].get(a, 0) + b
        for k in ("steps", "solves", "sim_time", "compared", "executions", "ops", "switches"):
            agg[k] += st[k]
        agg["slowest"] = max(agg["slowest"], st["cpu"])
        states.update(st["states"])
        digests[i], cost[i] = st["digest"], st["cpu"]
        if st["compared"] > 0 and st["steps"] >= 2:
            shapes.add(st["shape"])
        for k in st["known"]:
            known_seen.setdefault(k, []).append(i)
        if len(samples) < 3 and i in (0, 1, 2):
            samples.append({"index": i, "scenario": sc, "faults fired": st["faults"],
                            "steps": st["steps"], "solver calls": st["solves"]})
        if res["value"]["violation"]:
            found.append((i, sc, res["value"]))
            return True
        return False

    exhausted = parallel(tasks(), child_judge, jobs, on_result, until=until)
    search_s = time.monotonic() - t0
    extra = {}
    hs_bad = None
    if prop == "C15" and not found and not errors:
        extra["fresh interpreters"], hs_bad = hashseed_check(prop, seed, tier, jobs, agg)

    # determinism: the same seed is the same execution
    unstable = []
    if not found and not errors:
        n = 12 if tier == "quick" else 100
        again = {}
        parallel([(i, checks.generate(prop, seed, i, tier)) for i in
                  [j for j in sorted(digests) if cost[j] < 12][:n]], child_judge,
                 jobs, lambda i, a, r: again.__setitem__(i, r) and False)
        unstable = [i for i, r in again.items()
                    if not r["ok"] or r["value"]["stats"]["digest"] != digests[i]]
        extra["repeated scenarios with identical digest"] = len(again) - len(unstable)

    out, code = [], 0
    unlisted = [k for k in known_seen if k not in known]
    if unlisted and not found:
        i = known_seen[unlisted[0]][0]
        sc = checks.generate(prop, seed, i, tier)
        found.append((i, sc, {"violation": {"what": f"finding {unlisted[0]} is not listed in "
                                                    "known-findings.txt", "details": {}},
                              "stats": {"digest": digests[i]}}))
    for k, (p, text) in sorted(known.items()):
        if p == prop and k in known_seen:
            out.append(f"KNOWN-FINDING: property={prop} {text} (id={k}, {len(known_seen[k])} runs)")
    violations = 0
    if found:
        found.sort(key=lambda x: x[0])
        i, sc, res = found[0]
        seconds = 45.0 if tier == "quick" else 300.0
        if os.environ.get("TVSIM_NOMINIMISE"):      # development tools only
            seconds = 0.0
        best, what, tried = minimise(sc, res, seconds, jobs)
        log = one(event_log, best)
        path = write_replay(prop, seed, i, best, sc, what, tried, log.get("value"))
        rep = fresh(["--replay", path])
        exact = rep.returncode == 1 and "reproduced exactly" in rep.stdout
        violations = len(found)
        out.append(f"scenario {i} of seed {seed}: {what['violation']['what']}")
        out.append(f"minimised to {len(best['ops'])} operations; replay in a fresh process "
                   f"{'reproduces it exactly' if exact else 'DID NOT reproduce it exactly'}")
        out.append(f"VIOLATION property={prop} replay={path}")
        code = 1
    elif hs_bad:
        s, sc, why = hs_bad
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, f"{prop}-seed{seed}-hash{s}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "verif_seed": seed, "hashseed": s, "scenario": sc,
                       "violation": f"history depends on the interpreter's hash seed: {why}"}, f, indent=1)
        out.append(f"hash seed {s}: {why}")
        out.append(f"VIOLATION property={prop} replay={path}")
        violations, code = 1, 1
    elif errors or unstable or not shapes or not agg["compared"]:
        code = 2
        if not errors and not unstable:
            out.append("nothing was judged")
        for i, sc, e in errors[:2]:
            out.append(f"harness error in scenario {i}: {e}")
        if unstable:
            out.append(f"scenarios {unstable} are not deterministic")
    wall = time.monotonic() - t0
    coverage = {
        "evaluations": evaluated,
        "distinct_nontrivial": len(shapes),
        "rule": "one evaluation = one generated scenario (simulations, operations, faults), executed "
                "with its twins and judged; non-trivial = at least two recorded steps and at least one "
                "judged comparison; distinct = different event logs (operations, solver calls with "
                "kind/step/outcome, faults, thread switches)",
        "samples": samples or [{"none": True}],
        "planned": total, "exhausted": exhausted and not found,
        "executions": agg["executions"], "operations": agg["ops"], "steps_recorded": agg["steps"],
        "solver_calls": agg["solves"], "comparisons": agg["compared"],
        "simulated_seconds": round(agg["sim_time"], 3),
        "runs_per_hour": int(agg["executions"] / max(search_s, 1e-3) * 3600),
        "seeds_per_hour": int(evaluated / max(search_s, 1e-3) * 3600),
        "faults_fired": dict(sorted(agg["faults"].items())),
        "interrupted_functions": dict(sorted(agg["lines"].items())),
        "distinct_posed_states": len(states),
        "thread_switches": agg["switches"], "slowest_scenario_cpu_s": round(agg["slowest"], 1),
        "probes": agg["notes"], "components": COMPONENTS, **extra,
    }
    from .notes import ASSUMPTIONS, LEVELS
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": LEVELS[prop],
                   "coverage": coverage, "assumptions": ASSUMPTIONS, "wall_s": round(wall, 2),
                   "violations": violations}, f, indent=1, default=str)
    for line in out:
        print(line)
    nf = sum(agg["faults"].values())
    print(f"{prop} {tier} seed={seed}: {evaluated}/{total} scenarios, {len(shapes)} distinct, "
          f"{agg['steps']} steps, {agg['solves']} solver calls, {nf} faults, {agg['compared']} "
          f"comparisons, {wall:.1f} s")
    return code


def write_digests(prop, seed, n, out, jobs):
    """Digests of the first n scenarios, for tools/determinism.py."""
    checks = _prepare()
    got = {}
    parallel([(i, checks.generate(prop, seed, i, "quick")) for i in range(n)], child_judge, jobs,
             lambda i, a, r: got.__setitem__(i, r["value"]["stats"]["digest"] if r["ok"]
                                             else r["error"][-300:]) and False)
    with open(out, "w") as f:
        json.dump([got[i] for i in range(n)], f)
    return 0


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    prop = rec["property"]
    _prepare()
    sc = rec["scenario"]
    if rec.get("hashseed"):
        tmp = tempfile.mkdtemp(dir=_scratch())
        src, dst = os.path.join(tmp, "s"), os.path.join(tmp, "o")
        with open(src, "wb") as f:
            pickle.dump([sc], f)
        fresh(["--batch", src, dst], {"TVSIM_HASHSEED": rec["hashseed"]})
        with open(dst, "rb") as f:
            theirs = pickle.load(f)[0]
        mine = run_batch([sc], 1)[0]
        why = None
        if mine["ok"] and theirs["ok"]:
            why = portable_difference(mine["value"], theirs["value"])
        elif mine["ok"] != theirs["ok"]:
            why = "fails only in one interpreter"
        if why:
            print(f"history depends on the hash seed: {why}\nreproduced exactly")
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        print("not reproduced")
        return 0
    res = one(child_judge, sc)
    if not res["ok"]:
        print(res["error"])
        return 2
    v = res["value"]["violation"]
    if not v:
        print("not reproduced: the property holds in this execution")
        return 0
    same = v["what"] == rec["violation"] and res["value"]["stats"]["digest"] == rec["digest"]
    print(v["what"])
    print("reproduced exactly" if same else f"another violation than recorded: {rec['violation']}")
    print(f"VIOLATION property={prop} replay={path}")
    return 1


def main(argv):
    p = argparse.ArgumentParser()
    p.add_argument("property", nargs="?")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    p.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    p.add_argument("--scale", type=float, default=1.0)
    p.add_argument("--replay")
    p.add_argument("--batch", nargs=2)
    p.add_argument("--digests", nargs=2, metavar=("N", "OUT"))
    a = p.parse_args(argv)
    try:
        if a.replay:
            return replay(a.replay)
        if a.batch:
            _prepare()
            with open(a.batch[0], "rb") as f:
                scs = pickle.load(f)
            out = run_batch(scs, a.jobs)
            with open(a.batch[1], "wb") as f:
                pickle.dump(out, f)
            return 0
        if a.digests:
            return write_digests(a.property, a.seed, int(a.digests[0]), a.digests[1], a.jobs)
        return run_check(a.property, a.tier, a.seed, a.jobs, a.scale)
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        return 2
