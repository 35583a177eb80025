"""The properties: how executions are generated and how they are judged.

Every property has a generator (rng, tier, index) -> scenario and a judge (scenario, Run).  The
judge executes the scenario (and its twins) and raises Violation.
"""

import copy
import math

import numpy as np

from . import driver, fresh, generate as g, reference as ref
from .analysis import (
    Violation, attempts_of, close, expect_success, history_pairs, identity, initial, live_ops,
    maxdiff, pairs_of, recorded_theta, reread, same_problem, same_snap, shape_y, values_close,
)


class Run:
    """Collects statistics while a scenario is judged."""

    def __init__(self):
        self.traces = []
        self.compared = 0
        self.known = []
        self.notes = {}

    def execute(self, scenario, budget=None):
        t = driver.execute(scenario, budget or limit(scenario))
        self.traces.append(t)
        return t

    def twin(self, scenario):
        """Execute a scenario in a process in which nothing else ran before."""
        if fresh.HELPER is None:
            return self.execute(scenario)
        t = fresh.HELPER.execute(scenario, limit(scenario))
        self.traces.append(t)
        return t

    def count(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n


def limit(sc):
    """Generous bound on solver calls: progress, not an endless loop."""
    n = 0
    for op in sc["ops"]:
        n += 2 * max(op.get("n", 1), 0) + 4
    return 20 * n + 100


def base(seed, prop, sims, ops, **kw):
    return {"prop": prop, "seed": seed, "sims": sims, "ops": ops, **kw}


def without(sc, *, faults=True, ops=()):
    out = copy.deepcopy(sc)
    out["ops"] = [op for op in out["ops"] if op["op"] not in ops]
    if faults:
        for op in out["ops"]:
            op.pop("faults", None)
    return out


def check_history(sim, pairs, tol=1e-9):
    """The history is the initial step followed by the answers of the completed pairs."""
    if not sim.snaps:
        return
    why = same_snap(sim.snaps[0], initial(sim), tol)
    if why:
        raise Violation(f"step 0 is not the undeformed body at the initial temperature: {why}")
    for k, p in enumerate(pairs, 1):
        want = {"y": shape_y(sim, p.mech.answer), "theta": recorded_theta(p.therm.answer)}
        why = same_snap(sim.snaps[k], want, tol)
        if why:
            raise Violation(f"recorded step {k} is not what was computed for it: {why}", step=k)


# --- C01 -------------------------------------------------------------------------------------

def gen_c01(rng, tier, i):
    reg = rng.random() < 0.08
    long = not reg and rng.random() < 0.12
    cfg = g.gen_cfg(rng, reg=reg, tiny=long)
    ops = g.construct(rng, cfg, 0.35)
    for _ in range(rng.randint(2, 6)):
        k = rng.random()
        if k < 0.12:
            ops.append({"op": "run", "sim": 0, "n": rng.choice([0, -1, -7])})
        elif k < 0.22:
            ops.append({"op": "run", "sim": 0, "n": 1, "default": True})
        else:
            n = g.pick(rng, (3, 1), (3, 2), (2, 3), (1, 6))
            if long and rng.random() < 0.4:
                n = rng.randint(7, 40)
            op = {"op": "run", "sim": 0, "n": n}
            if rng.random() < 0.3:
                op["kw"] = True
            if rng.random() < 0.6:
                op["faults"] = [g.gen_fault(rng, cfg, n)]
                if rng.random() < 0.15:
                    op["faults"][0]["times"] = 2
            ops.append(op)
        if rng.random() < 0.15:
            ops.append({"op": rng.choice(["maxtemp", "plot", "query"]), "sim": 0, "i": -1, "qseed": 1,
                        "n": 2})
    if tier == "thorough" and rng.random() < 0.1 and not reg:
        ops.append({"op": "run", "sim": 0, "n": 40})
    return [cfg], ops


MUST_RAISE = {"solver", "traction", "ext", "line"}


def judge_counts(trace, run):
    for sim in trace.sims:
        prev_snaps = 0
        for r in sim.ops:
            name = r.op["op"]
            run.compared += 1
            serious = [f for f in r.fired if f[1] in MUST_RAISE or (f[1] == "stderr" and f[3] == "kbd")]
            if r.ok and serious:
                raise Violation(f"operation {r.index} ({name}) swallowed the failure {serious[0]}")
            if name == "construct":
                ps = pairs_of(sim, r)
                if r.ok:
                    if r.after != 2:
                        raise Violation(f"history of length {r.after} after construction")
                    if len(ps) != 1 or r.rec1 - r.rec0 != 2:
                        raise Violation(f"construction completed {len(ps)} steps in "
                                        f"{r.rec1 - r.rec0} solver calls")
                elif not r.fired:
                    raise Violation(f"construction failed without a fault: {r.etype}: {r.error}",
                                    trace=r.trace)
            elif name == "run":
                n = 1 if r.op.get("default") else r.op["n"]
                ps = pairs_of(sim, r)
                if n <= 0:
                    if r.ok:
                        raise Violation(f"run({n}) was accepted")
                    if r.etype != "ValueError" and not r.fired:
                        raise Violation(f"run({n}) raised {r.etype}")
                    if r.after != r.before or r.rec1 != r.rec0 or r.call1 != r.call0:
                        raise Violation(f"run({n}) had an effect")
                elif r.ok:
                    if r.after - r.before != n:
                        raise Violation(f"run({n}) appended {r.after - r.before} steps")
                    if len(ps) != n or r.rec1 - r.rec0 != 2 * n:
                        raise Violation(f"run({n}) solved {r.rec1 - r.rec0} problems")
                else:
                    if not r.fired:
                        raise Violation(f"run({n}) failed without a fault: {r.etype}: {r.error}",
                                        trace=r.trace)
                    lost = len(ps) - (r.after - r.before)
                    if lost != 0 and not (lost == 1 and r.line_hit):
                        raise Violation(
                            f"failed run recorded {r.after - r.before} steps but completed {len(ps)}")
            elif not r.ok and not r.fired:
                raise Violation(f"{name} failed without a fault: {r.etype}: {r.error}",
                                trace=r.trace)
            elif r.after != r.before:
                raise Violation(f"{name} changed the number of steps")
            prev_snaps = r.after
        if sim.obj is not None:
            check_history(sim, history_pairs(sim))
            reread(sim)


def judge_c01(sc, run):
    judge_counts(run.execute(sc), run)


# --- C02 -------------------------------------------------------------------------------------

def gen_c02(rng, tier, i):
    reg = rng.random() < 0.25
    over = {}
    if not reg and rng.random() < 0.25:
        # extreme and decimal sizes
        s = rng.choice([1e-5, 1e-4, 1e-6, 1e4, 0.1, 0.3, 0.7, 1 / 3])
        over = {"w": g.pick(rng, (2, s), (1, 2 * s), (1, round(3 * s, 12))), "h": s, "scale": s,
                "radius": 50 * s}
    long = not reg and rng.random() < 0.08
    cfg = g.gen_cfg(rng, reg=reg, big=not reg and not long and rng.random() < 0.15, tiny=long)
    if over:
        fix = cfg["fix"]
        while True:
            cfg.update(over, fix=fix)
            m = g.mesh_of(cfg)
            if len(ref.clamped_vertices(m, fix)) < m.n:
                break
            fix = g.gen_fix(rng)
    ops = g.construct(rng, cfg, 0.1)
    q = rng.randrange(1000)
    for _ in range(rng.randint(2, 4)):
        n = rng.randint(1, 3)
        op = {"op": "run", "sim": 0, "n": n}
        if rng.random() < 0.35:
            op["faults"] = [g.gen_fault(rng, cfg, n)]
        ops.append(op)
        ops.append({"op": "query", "sim": 0, "qseed": q, "n": 4 if reg else 8})
        if rng.random() < 0.3:
            ops.append({"op": rng.choice(["plot", "maxtemp"]), "sim": 0, "i": rng.randint(-2, 1)})
        if long and rng.random() < 0.6:
            ops.append({"op": "run", "sim": 0, "n": rng.randint(10, 60)})
            ops.append({"op": "query", "sim": 0, "qseed": q, "n": 8})
    ops.append({"op": "query", "sim": 0, "qseed": q, "n": 4 if reg else 8})
    return [cfg], ops


def p1_eval(mesh, u, pts):
    """values and gradients of P1 functions u (..., n) at points"""
    q = np.asarray(pts, float) / mesh.h
    ij = np.clip(np.floor(q + 1e-9).astype(int), 0, [mesh.nx - 1, mesh.ny - 1])
    loc = q - ij
    upper = loc[:, 1] > loc[:, 0]
    t = 2 * (ij[:, 1] * mesh.nx + ij[:, 0]) + upper
    p0 = mesh.points[mesh.triangles[t, 0]]
    grad = mesh.p1_gradient(u)[..., t, :]
    d = np.asarray(pts, float) - p0
    val = u[..., mesh.triangles[t, 0]] + np.sum(grad * d, axis=-1)
    return val, grad


def expected_query(sim, snap, pts):
    """rows as in the driver's query: y1 y2 theta | grad y1, grad y2 | strain | grad theta | hessians"""
    pts = np.asarray(pts, float)
    tv, tg = p1_eval(sim.fine, snap["theta"], pts)
    if sim.reg:
        f = ref.C1Field(sim.mesh)
        e = [f.eval(snap["y"][:, c], pts) for c in range(2)]
        v = np.stack([e[0][:, 0], e[1][:, 0]], axis=1)
        gr = np.concatenate([e[0][:, 1:3], e[1][:, 1:3]], axis=1)
        hs = np.concatenate([np.stack([x[:, 3], x[:, 4], x[:, 4], x[:, 5]], axis=1) for x in e], axis=1)
        return np.concatenate([v, tv[:, None], gr, gr, tg, hs, hs], axis=1)
    yv, yg = p1_eval(sim.mesh, np.moveaxis(snap["y"], -1, 0), pts)
    gr = np.concatenate([yg[0], yg[1]], axis=1)
    return np.concatenate([yv.T, tv[:, None], gr, gr, tg], axis=1)


def judge_c02(sc, run):
    tr = run.execute(sc)
    expect_success(tr)
    sim = tr.sims[0]
    if sim.obj is None:
        return
    pairs = history_pairs(sim)
    seen = {}
    m = sim.mesh
    for r in live_ops(sim):
        if r.op["op"] != "query" or not r.ok:
            continue
        pts = r.value["points"]
        nint = r.op["n"]
        for k, vals in r.value["values"]:
            run.compared += 1
            if k == 0:
                snap = initial(sim)
            else:
                p = pairs[k - 1]
                snap = {"y": shape_y(sim, p.mech.answer), "theta": recorded_theta(p.therm.answer)}
            want = expected_query(sim, snap, pts)
            got = np.array(vals)
            if got.shape != want.shape:
                raise Violation(f"query of step {k} has shape {got.shape}")
            scale = query_scale(sim, snap, want)
            d = np.abs(got - want) / scale
            # derivatives jump across edges: only values are compared there
            d[nint:, 3:] = 0
            if not np.all(d <= 1e-7):
                a, b = np.unravel_index(np.nanargmax(np.where(np.isnan(d), np.inf, d)), d.shape)
                what = ("deformation", "deformation", "temperature")[b] if b < 3 else (
                    "deformation gradient" if b < 11 else
                    "temperature gradient" if b < 13 else "second derivative")
                raise Violation(f"{what} of step {k} at {tuple(map(float, pts[a]))} is "
                                f"{got[a, b]!r} instead of {want[a, b]!r} (column {b})", step=k)
            key = (r.op["qseed"], nint, k)
            if key in seen:
                if not np.allclose(seen[key], got, rtol=1e-9, atol=1e-9 * scale):
                    raise Violation(f"answers for step {k} changed during operation {r.index}",
                                    step=k)
            else:
                seen[key] = got
        for x, y, name, refused in r.value["outside"]:
            run.compared += 1
            if not refused:
                raise Violation(f"{name} answered at ({x}, {y}), outside the body")
    reread(sim)


def query_scale(sim, snap, want):
    """rounding scale per column"""
    h = sim.mesh.h
    ext = max(sim.mesh.nx, sim.mesh.ny) * h
    y = np.abs(snap["y"][..., 0] if sim.reg else snap["y"]).max() + ext
    t = np.abs(snap["theta"]).max() + 1e-3
    hf = sim.fine.h
    s = [y, y, t] + [y / h] * 8 + [t / hf] * 2
    if sim.reg:
        s += [y / h ** 2] * 16
    w = np.maximum(np.array(s)[None, :], np.abs(want))
    return w


# --- C03 -------------------------------------------------------------------------------------

def gen_c03(rng, tier, i):
    reg = rng.random() < 0.1
    long = not reg and rng.random() < 0.05
    cfg = g.gen_cfg(rng, reg=reg, fine=tier == "thorough", tiny=long)
    ops = g.construct(rng, cfg, 0.3)
    total = 1
    if long:
        # failures late in a long history
        cfg["mode"] = "plugin"
        total += rng.randint(15, 110)
        ops.append({"op": "run", "sim": 0, "n": total - 1})
    for _ in range(rng.randint(1, 4)):
        n = g.pick(rng, (3, 1), (3, 2), (2, 4))
        op = {"op": "run", "sim": 0, "n": n, "faults": [g.gen_fault(rng, cfg, n)]}
        if rng.random() < 0.2:
            op["faults"][0]["times"] = rng.randint(2, 4)
        total += n
        ops.append(op)
        k = rng.random()
        if k < 0.1:
            ops.append({"op": "query", "sim": 0, "qseed": 1, "n": 2})
        elif k < 0.2:
            ops.append({"op": "run", "sim": 0, "n": 0})
        elif k < 0.5:
            ops.append({"op": "run", "sim": 0, "n": rng.randint(1, 2)})
            total += ops[-1]["n"]
    ops.append({"op": "reach", "sim": 0, "n": total + 1, "single": rng.random() < 0.5})
    return [cfg], ops


def twin_of(sc, n):
    t = without(sc)
    t["ops"] = [{"op": "construct", "sim": 0}, {"op": "reach", "sim": 0, "n": n, "single": True}]
    return t


def by_step(sim):
    """step -> (mech, therm) of the completed attempt"""
    return {p.step: p for r in live_ops(sim) for p in pairs_of(sim, r)}


def judge_c03(sc, run):
    tr = run.execute(sc)
    sim = tr.sims[0]
    for r in tr.ops:
        if not r.ok and not r.fired and not (r.op["op"] == "run" and r.op["n"] <= 0):
            raise Violation(f"operation {r.index} ({r.op['op']}) failed although the fault was over: "
                            f"{r.etype}: {r.error}", trace=r.trace)
        if not r.ok and r.op["op"] == "run":
            done = len(pairs_of(sim, r))
            if not (r.after - r.before == done or (r.line_hit and r.after - r.before == done - 1)):
                raise Violation(f"a failed run that completed {done} steps recorded "
                                f"{r.after - r.before}")
    if sim.obj is None:
        return
    n = len(sim.snaps) - 1
    twin = run.twin(twin_of(sc, n))
    expect_success(twin)
    other = twin.sims[0]
    ref_pairs = by_step(other)
    if len(other.snaps) < n + 1:
        raise Violation(f"undisturbed run has {len(other.snaps)} steps instead of {n + 1}")
    for k in range(n + 1):
        run.compared += 1
        why = same_snap(sim.snaps[k], other.snaps[k])
        if why:
            raise Violation(f"step {k} differs from the undisturbed run: {why}", step=k)
    for mech, therm, r in attempts_of(sim):
        for rec in (mech, therm):
            if rec is None or rec.step not in ref_pairs:
                continue
            if rec is therm and (mech is None or mech.outcome != "ok"):
                continue
            run.compared += 1
            want = getattr(ref_pairs[rec.step], rec.kind)
            why = same_problem(rec, want)
            if why:
                raise Violation(f"{rec.kind} problem of step {rec.step} in operation {r.index} differs "
                                f"from the undisturbed run: {why}", step=rec.step)
    reread(sim)


# --- C04 -------------------------------------------------------------------------------------

def gen_plain(rng, tier, i, reg=0.15, faults=0.3, policy=None, n=(2, 5), **over):
    r = rng.random() < reg
    long = not r and rng.random() < 0.06
    cfg = g.gen_cfg(rng, reg=r, big=not r and not long and rng.random() < 0.1, tiny=long, wide=True,
                    **over)
    if long:
        n = (12, 45)
    if policy:
        cfg["policy"] = policy(rng)
    ops = g.construct(rng, cfg, faults * 0.5)
    for m in g.split(rng, rng.randint(*n)):
        op = {"op": "run", "sim": 0, "n": m}
        if rng.random() < faults:
            op["faults"] = [g.gen_fault(rng, cfg, m)]
        ops.append(op)
    ops.append({"op": "run", "sim": 0, "n": 1})
    return [cfg], ops


def gen_c04(rng, tier, i):
    return gen_plain(rng, tier, i, policy=lambda r: g.pick(
        r, (3, "perturb"), (3, "mixed"), (1, "lazy"), (1, "descent")))


def state_before(sim, step):
    return sim.snaps[step - 1] if step >= 1 and step - 1 < len(sim.snaps) else (
        initial(sim) if step == 1 else None)


def judge_c04(sc, run):
    tr = run.execute(sc)
    expect_success(tr)
    for sim in tr.sims:
        rad = float(sim.cfg["radius"])
        start0 = initial(sim)
        for rec in sim.records:
            prev = start0 if rec.step == 1 else (
                sim.snaps[rec.step - 1] if rec.step - 1 < len(sim.snaps) else None)
            if prev is None:
                continue
            run.compared += 1
            x = prev["y"].ravel() if rec.kind == "mech" else prev["theta"]
            if not close(rec.start, x):
                raise Violation(f"{rec.kind} problem of step {rec.step} does not start at the last "
                                f"recorded state: {maxdiff(rec.start, x)}", step=rec.step)
            lo, hi = x - rad, x + rad
            if rec.kind == "therm":
                lo = np.maximum(lo, 0.0)
            free = ~rec.fixed
            for name, got, want in (("lower", rec.lb, lo), ("upper", rec.ub, hi)):
                if not close(got[free], want[free]):
                    raise Violation(f"{name} bounds of the {rec.kind} problem of step {rec.step}: "
                                    f"{maxdiff(got[free], want[free])}", step=rec.step)
        if sim.obj is not None:
            check_history(sim, history_pairs(sim))
            reread(sim)


# --- C05, C06, C07 ---------------------------------------------------------------------------

def gen_c05(rng, tier, i):
    return gen_plain(rng, tier, i, reg=0.0, faults=0.2, n=(2, 6),
                     policy=lambda r: g.pick(
                         r, (3, "perturb"), (3, "mixed"), (1, "descent"), (1, "lazy")))


def judge_objective(sc, run, kind):
    tr = run.execute(sc)
    expect_success(tr)
    judged = 0
    for sim in tr.sims:
        fps = sim.cfg["fps"]
        for mech, therm, r in attempts_of(sim):
            rec = mech if kind == "mech" else therm
            if rec is None or rec.step - 1 >= len(sim.snaps):
                continue
            k = rec.step
            prev = sim.snaps[k - 1]
            T = rec.trials.T
            P = sim.problem
            t = (k - 1) / fps
            if kind == "mech":
                Y = shape_y(sim, T)
                wants = [P.mechanical(Y, prev["y"], prev["theta"])] if sim.reg else [
                    P.mechanical(Y, prev["y"], prev["theta"], sim.g_at(t))]
            else:
                if mech is None or mech.outcome != "ok":
                    continue
                y = shape_y(sim, mech.answer)
                if sim.reg:
                    bulk = P.thermal(T, prev["theta"], prev["y"], y)
                    # C07 speaks about the bulk terms; an exchange term is C08's business
                    wants = [bulk, bulk + P.exchange(T, sim.ext_at(t))]
                else:
                    wants = [P.thermal(T, prev["theta"], prev["y"], y, sim.ext_at(t))]
            why = None
            for want in wants:
                why = values_close(rec.values, want)
                if why is True or why is None:
                    break
            # where the documented energy is finite, so is the posed one
            fin = np.isfinite(wants[0])
            if why is not None and why is not True:
                raise Violation(f"{'mechanical' if kind == 'mech' else 'thermal'} problem of step "
                                f"{k}: {why}", step=k)
            if np.any(fin & ~np.isfinite(rec.values)):
                raise Violation(f"{kind} objective of step {k} is not finite at a trial point where "
                                "the documented energy is", step=k)
            if why is True:
                judged += 1
                run.compared += int(fin.sum())
    run.count("problems compared", judged)


def judge_c05(sc, run):
    judge_objective(sc, run, "mech")


gen_c06 = gen_c05


def judge_c06(sc, run):
    judge_objective(sc, run, "therm")


def gen_c07(rng, tier, i):
    cfg = g.gen_cfg(rng, reg=True, loads=False, wide=True)
    if tier == "thorough" and rng.random() < 0.15:
        cfg.update(r=rng.choice([3, 4]), w=cfg["scale"], h=cfg["scale"])
    elif rng.random() < 0.06:
        cfg.update(r=3, w=cfg["scale"], h=cfg["scale"])
    elif rng.random() < 0.06:
        cfg.update(r=3, w=10, h=10, scale=10)
    total = rng.randint(1, 4)
    if rng.random() < 0.05:
        cfg.update(r=1, w=cfg["scale"], h=cfg["scale"], mode="plugin")
        total = rng.randint(8, 24)
    elif rng.random() < 0.03:
        # fine temperature grids: the first step only, its size is what matters
        cfg.update(r=rng.choice([4, 5]), w=cfg["scale"], h=cfg["scale"], mode="plugin")
        return [cfg], [{"op": "construct", "sim": 0}]
    ops = [{"op": "construct", "sim": 0}]
    for n in g.split(rng, total):
        op = {"op": "run", "sim": 0, "n": n}
        if rng.random() < 0.2:
            op["faults"] = [g.gen_fault(rng, cfg, n, sites=("solver", "stderr"))]
        ops.append(op)
    if rng.random() < 0.5:
        ops.append({"op": "query", "sim": 0, "qseed": i % 97, "n": 3})
    return [cfg], ops


def judge_c07(sc, run):
    judge_objective(sc, run, "mech")
    judge_objective(sc, run, "therm")
    # the function spaces: queries against the reference elements
    if any(op["op"] == "query" for op in sc["ops"]):
        judge_c02(sc, run)


# --- C08 -------------------------------------------------------------------------------------

def gen_c08(rng, tier, i):
    reg = rng.random() < 0.12
    long = not reg and rng.random() < 0.12
    cfg = g.gen_cfg(rng, reg=reg, big=not reg and not long and rng.random() < 0.2)
    if rng.random() < 0.9 or not cfg.get("traction"):
        cfg["traction"] = g.gen_traction(rng, cfg["fps"])
    if rng.random() < 0.9 or not cfg.get("ext"):
        cfg["ext"] = g.gen_ext(rng, cfg["fps"])
    if long:
        cfg.update(w=cfg["scale"], h=cfg["scale"], fix=rng.choice([None, "left", "upper"]),
                   policy=rng.choice(["lazy", "perturb", "mixed"]), mode="plugin",
                   fps=rng.choice([10, 3, 30, 7.5, 24.0, 60, 15.4]))
    ops = g.construct(rng, cfg, 0.15)
    for n in g.split(rng, rng.randint(2, 5)):
        op = {"op": "run", "sim": 0, "n": n}
        if rng.random() < 0.3:
            op["faults"] = [g.gen_fault(rng, cfg, n)]
        ops.append(op)
    if long:
        ops.append({"op": "run", "sim": 0, "n": 150 if tier == "quick" else 600})
    ops.append({"op": "run", "sim": 0, "n": 2})
    return [cfg], ops


def same_time(t, want):
    return t == want or abs(t - want) <= 4 * math.ulp(max(abs(want), abs(t)))


def judge_c08(sc, run):
    tr = run.execute(sc)
    expect_success(tr)
    sim = tr.sims[0]
    if sim.obj is None:
        return
    fps = float(sim.cfg["fps"])
    unloaded = without(sc)
    n = len(sim.snaps) - 1
    unloaded["sims"] = [dict(sc["sims"][0], traction=None, ext=None)]
    unloaded["ops"] = [{"op": "construct", "sim": 0}, {"op": "reach", "sim": 0, "n": n, "single": True}]
    free = ref.free_edges(sim.mesh, sim.fix)
    nodes = {v for e in free for v in e}
    known = not sim.reg
    # when the loads are consulted
    if not sim.reg:
        judge_calls(sim, run, fps, nodes)
    # what the loads do: the same answers without loads
    tw = run.twin(unloaded)
    expect_success(tw)
    plain = by_step(tw.sims[0])
    ignored = {"mech": 0, "therm": 0}
    effective = {"mech": 0, "therm": 0}
    for mech, therm, r in attempts_of(sim):
        for rec in (mech, therm):
            if rec is None or rec.step not in plain:
                continue
            if rec is therm and (mech is None or mech.outcome != "ok"):
                continue
            other = getattr(plain[rec.step], rec.kind)
            t = (rec.step - 1) / fps
            with np.errstate(invalid="ignore"):
                got = rec.values - other.values
                same = not np.any(np.isfinite(got)) or close(rec.trials, other.trials, 1e-9)
                if rec.kind == "mech":
                    want = -load_work(sim, t, shape_y(sim, rec.trials.T))
                else:
                    prob = sim.problem
                    ex = prob.exchange if sim.reg else prob.boundary_exchange
                    want = ex(rec.trials.T, sim.ext_at(t)) - ex(rec.trials.T, 0.0)
                ok = np.isfinite(got)
            if not same:
                raise Violation(f"{rec.kind} problem of step {rec.step} does not start at the same "
                                "state as without loads", step=rec.step)
            if ok.sum() < 2 or not ok[0]:
                continue
            run.compared += 1
            got, want = (got - got[0])[ok], (want - want[0])[ok]
            ref_scale = np.max(np.abs(rec.values[ok] - rec.values[0])) + abs(rec.values[0])
            tol = 1e-7 * np.max(np.abs(want)) + 1e-11 * ref_scale + 1e-12
            if np.max(np.abs(want)) > 10 * tol:
                effective[rec.kind] += 1
            if np.max(np.abs(got - want)) <= tol:
                continue
            if sim.reg and np.max(np.abs(got)) <= tol:
                ignored[rec.kind] += 1
                continue
            k = int(np.argmax(np.abs(got - want)))
            name = "traction" if rec.kind == "mech" else "external temperature"
            raise Violation(f"{name} changes the {rec.kind} objective of step {rec.step} by "
                            f"{got[k]!r} instead of {want[k]!r}", step=rec.step)
    run.count("loaded problems", effective["mech"] + effective["therm"])
    if ignored["mech"]:
        run.known.append("C08-regularized-traction")
    if ignored["therm"]:
        run.known.append("C08-regularized-external-temperature")


def load_work(sim, t, Y):
    if sim.reg:
        pos = Y[..., 0]
    else:
        pos = Y
    gv = sim.g_at(t)
    fe = np.array(ref.free_edges(sim.mesh, sim.fix)).reshape(-1, 2)
    if not len(fe):
        return np.zeros(Y.shape[0])
    gm = (gv[fe[:, 0]] + gv[fe[:, 1]]) / 2
    ym = (pos[..., fe[:, 0], :] + pos[..., fe[:, 1], :]) / 2
    return sim.mesh.h * np.sum(gm * ym, axis=(-1, -2))


def judge_calls(sim, run, fps, nodes):
    """Times and places at which the loads were consulted."""
    recs = sim.records
    m = sim.mesh
    for r in sim.ops:
        calls = sim.calls[r.call0:r.call1]
        groups = {}
        for c in calls:
            groups.setdefault((c[0], c[2]), []).append(c)  # (load, solves seen before)
        # the step each call belongs to
        for (name, seen), cs in sorted(groups.items(), key=lambda x: x[0][1]):
            nxt = recs[seen] if seen < r.rec1 else None
            if nxt is not None:
                step = nxt.step
            else:
                # no solve followed: the operation failed here
                step = r.after if r.op["op"] != "construct" else 1
                if r.ok:
                    raise Violation(f"{name} was consulted after the last step of operation {r.index}")
                if r.line_hit and seen > r.rec0 and recs[seen - 1].kind == "therm":
                    step = None
            if step is None:
                continue
            want = (step - 1) / fps
            for c in cs:
                run.compared += 1
                if not same_time(c[3][0], want):
                    raise Violation(f"{name} for step {step} was taken at time {c[3][0]!r} instead of "
                                    f"{want!r}", step=step)
    # every posed mechanical problem: consulted exactly at the nodes of the unclamped edges
    for r in sim.ops:
        calls = sim.calls[r.call0:r.call1]
        for i in range(r.rec0, r.rec1):
            rec = recs[i]
            before = [c for c in calls if c[2] == i]
            if rec.kind == "mech":
                if sim.traction_fn is None:
                    continue
                pts = [c[3][1:] for c in before if c[0] == "traction"]
                idx = m.index_of(pts) if pts else np.array([], int)
                if idx is None:
                    raise Violation(f"traction was consulted off the grid in step {rec.step}: {pts}")
                if set(idx.tolist()) != nodes:
                    extra = sorted(set(idx.tolist()) - nodes)
                    lack = sorted(nodes - set(idx.tolist()))
                    raise Violation(
                        f"traction of step {rec.step} was consulted at nodes off the unclamped "
                        f"boundary ({[m.points[v].tolist() for v in extra]}) or not at some on it "
                        f"({[m.points[v].tolist() for v in lack]})", step=rec.step)
            elif sim.ext_fn is not None:
                cs = [c for c in calls if c[0] == "ext" and c[2] in (i, i - 1)]
                if not cs:
                    raise Violation(f"external temperature was not consulted for step {rec.step}",
                                    step=rec.step)


# --- C09 -------------------------------------------------------------------------------------

def gen_c09(rng, tier, i):
    sims, ops = gen_plain(rng, tier, i, reg=0.3, faults=0.3, n=(2, 4))
    ops.append({"op": "query", "sim": 0, "qseed": i % 89, "n": 1})
    return sims, ops


def clamp_rows(sim):
    """Rows (over the canonical unknowns) that a clamped side prescribes, with the values."""
    m = sim.mesh
    n = sim.ny_dofs
    rows, rhs = [], []
    ident = identity(sim)
    if not sim.reg:
        for v in ref.clamped_vertices(m, sim.fix):
            for c in range(2):
                row = np.zeros(n)
                row[v * 2 + c] = 1
                rows.append(row)
                rhs.append(ident[v, c])
    else:
        seen = set()
        for e in ref.clamped_edges(m, sim.fix):
            d = m.points[e[1]] - m.points[e[0]]
            axis = 0 if abs(d[0]) > abs(d[1]) else 1
            for v in e:
                for c in range(2):
                    for j in (0, 1 + axis, 3 if axis == 0 else 5):
                        if (v, c, j) in seen:
                            continue
                        seen.add((v, c, j))
                        row = np.zeros(n)
                        row[(v * 2 + c) * 6 + j] = 1
                        rows.append(row)
                        rhs.append(ident[v, c, j])
    return np.array(rows).reshape(-1, n), np.array(rhs)


def judge_c09(sc, run):
    tr = run.execute(sc)
    expect_success(tr)
    for sim in tr.sims:
        E, e = clamp_rows(sim)
        ident = identity(sim).ravel()
        clamped = ref.clamped_vertices(sim.mesh, sim.fix)
        done = None
        for rec in sim.records:
            if rec.kind != "mech":
                if rec.fixed.any() or len(rec.A) or rec.extra:
                    raise Violation(f"thermal problem of step {rec.step} has constraints beyond its "
                                    "bounds", step=rec.step)
                continue
            run.compared += 1
            if rec.extra:
                raise Violation(f"mechanical problem of step {rec.step} has additional constraints "
                                f"{rec.extra[:3]}", step=rec.step)
            fx = np.eye(sim.ny_dofs)[rec.fixed]
            G = np.concatenate([fx, rec.A]) if len(rec.A) else fx
            key = (rec.fixed.tobytes(), rec.A.tobytes())
            if key != done:
                compare_spaces(sim, rec, G, E)
                done = key
            fixed_off = np.abs(rec.start[rec.fixed] - ident[rec.fixed])
            if fixed_off.size and fixed_off.max() > 1e-9 * (1 + np.abs(ident).max()):
                raise Violation(f"a clamped unknown of step {rec.step} is held away from the identity "
                                f"by {fixed_off.max()!r}", step=rec.step)
            if len(rec.A):
                res = np.abs(rec.A @ ident - rec.b)
                if res.max() > 1e-8 * (1 + np.abs(rec.b).max()):
                    raise Violation(f"the clamping constraints of step {rec.step} do not hold for the "
                                    "identity", step=rec.step)
        if sim.obj is None:
            continue
        for k, s in enumerate(sim.snaps):
            y = s["y"][..., 0] if sim.reg else s["y"]
            d = np.abs(y[clamped] - sim.mesh.points[clamped])
            run.compared += 1
            if d.size and d.max() > 1e-8 * (1 + sim.mesh.points.max()):
                raise Violation(f"clamped node moved by {d.max()!r} in step {k}", step=k)
        if sim.reg and ref.fixed_sides(sim.fix):
            whole_side(sim, run)


def compare_spaces(sim, rec, G, E):
    """Row spaces of the posed restrictions G and the documented ones E coincide."""
    def basis(M):
        if not len(M):
            return np.zeros((0, sim.ny_dofs))
        M = M / np.maximum(np.linalg.norm(M, axis=1, keepdims=True), 1e-300)
        u, s, vt = np.linalg.svd(M, full_matrices=False)
        return vt[s > 1e-9]

    # the row of an edge of length d scales with d: normalise unknowns by the cell size
    if sim.reg:
        w = np.tile(sim.mesh.h ** -ref._ORDER.astype(float), sim.mesh.n * 2)
        G, E = G * w, E * w
    bg, be = basis(G), basis(E)

    def outside(rows, basis_):
        if not len(rows):
            return None
        res = rows - (rows @ basis_.T) @ basis_ if len(basis_) else rows
        nrm = np.linalg.norm(res, axis=1)
        k = int(np.argmax(nrm))
        return rows[k] if nrm[k] > 1e-6 else None
    bad = outside(be, bg)
    if bad is not None:
        raise Violation(f"step {rec.step}: {name_dof(sim, int(np.argmax(np.abs(bad))))} on a clamped "
                        "side is free to move", step=rec.step)
    bad = outside(bg, be)
    if bad is not None:
        raise Violation(f"step {rec.step}: {name_dof(sim, int(np.argmax(np.abs(bad))))} is restricted "
                        "although it is not clamped", step=rec.step)


def name_dof(sim, k):
    if sim.reg:
        j, k = k % 6, k // 6
        what = ("value", "x-derivative", "y-derivative", "xx-derivative", "xy-derivative",
                "yy-derivative")[j]
    else:
        what = "value"
    return f"{what} of y{k % 2 + 1} at node {sim.mesh.points[k // 2].tolist()}"


def whole_side(sim, run):
    """The deformation is the identity along the entire clamped side."""
    m = sim.mesh
    Wd, Hd = m.nx * m.h, m.ny * m.h
    rng = np.random.default_rng([sim.cfg["aseed"], 21])
    for k, s in enumerate(sim.obj.steps):
        for side in sorted(ref.fixed_sides(sim.fix)):
            for u in rng.random(3):
                p = {"lower": (u * Wd, 0.0), "upper": (u * Wd, Hd), "left": (0.0, u * Hd),
                     "right": (Wd, u * Hd)}[side]
                v = s.y(float(p[0]), float(p[1]))
                run.compared += 1
                if max(abs(float(v[0]) - p[0]), abs(float(v[1]) - p[1])) > 1e-7 * (Wd + Hd):
                    raise Violation(f"point {p} of the clamped {side} side is at "
                                    f"({float(v[0])!r}, {float(v[1])!r}) in step {k}", step=k)


# --- C10 -------------------------------------------------------------------------------------

def gen_c10(rng, tier, i):
    sims, ops = gen_plain(rng, tier, i, reg=0.12, faults=0.15, n=(2, 8))
    cfg = sims[0]
    cfg["relax"] = g.pick(rng, (6, 1e-8), (1, 0.0), (1, 1e-9))
    if rng.random() < 0.5:
        cfg["theta0"] = rng.choice([0.0, 0.0, 0, 0.02])
    if rng.random() < 0.4:
        cfg["radius"] = rng.choice([0.05, 0.2, 0.5])
    if rng.random() < 0.3:
        cfg["tmax"] = rng.choice([0.02, 0.2])
    ops.append({"op": "query", "sim": 0, "qseed": i % 83, "n": 6})
    ops.append({"op": "maxtemp", "sim": 0})
    return sims, ops


def judge_c10(sc, run):
    tr = run.execute(sc)
    expect_success(tr)
    for sim in tr.sims:
        if sim.obj is None:
            continue
        rad = float(sim.cfg["radius"])
        t0 = sim.snaps[0]["theta"]
        if not close(t0, np.full_like(t0, float(sim.cfg["theta0"])), 1e-12):
            raise Violation("step 0 does not have the initial temperature everywhere")
        for k, s in enumerate(sim.snaps):
            run.compared += 1
            t = s["theta"]
            if not np.all(t >= -1e-13 * (1 + np.abs(t).max())):
                raise Violation(f"step {k} has the negative temperature {t.min()!r}", step=k)
            if k:
                d = np.abs(t - sim.snaps[k - 1]["theta"])
                slack = 1.1 * sim.cfg.get("relax", 0.0) * max(1.0, t.max() + rad) + 1e-9
                if d.max() > rad + slack:
                    raise Violation(f"temperature changes by {d.max()!r} in step {k}", step=k)
        for r in live_ops(sim):
            if r.op["op"] == "query" and r.ok:
                for k, vals in r.value["values"]:
                    low = min(v[2] for v in vals)
                    if low < -1e-12:
                        raise Violation(f"temperature {low!r} inside the body in step {k}", step=k)
        for rec in sim.records:
            if rec.kind == "therm" and (rec.lb < 0).any():
                raise Violation(f"the thermal problem of step {rec.step} allows negative temperatures",
                                step=rec.step)


# --- C11 -------------------------------------------------------------------------------------

def gen_c11(rng, tier, i):
    reg = rng.random() < 0.12
    cfg = g.gen_cfg(rng, reg=reg, mode="wire" if rng.random() < (0.15 if reg else 0.5) else "plugin")
    if cfg["mode"] == "wire" and reg:
        cfg["r"] = 1
    kinds = g.solver_kinds(cfg)
    ops = []
    if rng.random() < 0.5:
        ops.append({"op": "construct", "sim": 0, "faults": [
            {"site": "solver", "nth": rng.randint(1, 2), "kind": rng.choice(kinds)}]})
    ops.append({"op": "construct", "sim": 0})
    for _ in range(rng.randint(2, 6)):
        n = g.pick(rng, (3, 1), (2, 2), (1, 3))
        if not reg and cfg["mode"] == "plugin" and rng.random() < 0.06:
            n = rng.randint(4, 25)
        op = {"op": "run", "sim": 0, "n": n}
        k = rng.random()
        if k < 0.75:
            op["faults"] = [{"site": "solver", "nth": rng.randint(1, 2 * n), "kind": rng.choice(kinds)}]
            if rng.random() < 0.15:
                op["faults"][0]["times"] = rng.randint(2, 3)
        elif cfg["mode"] == "wire":
            op["faults"] = [{"site": "status", "nth": rng.randint(1, 2 * n), "kind": "acceptable"}]
        ops.append(op)
    ops.append({"op": "run", "sim": 0, "n": 1})
    return [cfg], ops


def judge_c11(sc, run):
    tr = run.execute(sc)
    for sim in tr.sims:
        for r in sim.ops:
            bad = [f for f in r.fired if f[1] == "solver"]
            run.compared += 1
            if bad and r.ok:
                raise Violation(f"operation {r.index} ({r.op['op']}) did not raise although the solver "
                                f"ended with {bad[0][3]}")
            if not bad and not r.ok:
                raise Violation(f"operation {r.index} ({r.op['op']}) failed although every solve "
                                f"succeeded: {r.etype}: {r.error}", trace=r.trace)
            if r.op["op"] == "construct":
                continue
            done = len(pairs_of(sim, r))
            if r.after - r.before != done:
                raise Violation(f"operation {r.index} recorded {r.after - r.before} steps but "
                                f"{done} were solved successfully")
        if sim.obj is not None:
            check_history(sim, history_pairs(sim))
            reread(sim)


# --- C12 -------------------------------------------------------------------------------------

def gen_c12(rng, tier, i):
    accurate = rng.random() < 0.6
    cfg = g.gen_cfg(rng)
    cfg["policy"] = "accurate" if accurate else "descent"
    cfg["iters"] = rng.choice([4, 10, 25])
    if rng.random() < 0.5:
        cfg["tired"] = rng.choice([0.3, 0.7])
    if accurate:
        # keep the temperature bounds away
        cfg["theta0"] = rng.choice([0.5, 1.0, 2.0])
        cfg["radius"] = rng.choice([10.0, 50.0])
        cfg["mode"] = "plugin"
    ops = [{"op": "construct", "sim": 0}]
    for n in g.split(rng, rng.randint(10, 30) if rng.random() < 0.05 else rng.randint(2, 6)):
        op = {"op": "run", "sim": 0, "n": n}
        if rng.random() < 0.4:
            op["faults"] = [g.gen_fault(rng, cfg, n)]
        ops.append(op)
    return [cfg], ops


def judge_c12(sc, run):
    tr = run.execute(sc)
    expect_success(tr)
    for sim in tr.sims:
        if sim.obj is None:
            continue
        fps = sim.cfg["fps"]
        P = sim.problem
        for k, p in enumerate(history_pairs(sim), 1):
            a, b = sim.snaps[k - 1], sim.snaps[k]
            t = (k - 1) / fps
            gv = sim.g_at(t)
            if np.isfinite(p.mech.f_answer) and p.mech.f_answer <= p.mech.f_start:
                new = (P.stored_energy(b["y"], a["theta"]) + fps * P.dissipated(a["y"], b["y"])
                       - P.traction_work(gv, b["y"]))
                old = P.stored_energy(a["y"], a["theta"]) - P.traction_work(gv, a["y"])
                run.compared += 1
                run.count("energy inequalities")
                if not new <= old + 1e-8 * (abs(new) + abs(old)) + 1e-12:
                    raise Violation(f"step {k} raises the energy from {old!r} to {new!r} (dissipation "
                                    "included) although the solver did not worsen the problem", step=k)
            if p.therm.active is False and p.therm.gnorm is not None:
                change, heat, loss = P.heat_balance(b["theta"], a["theta"], a["y"], b["y"], sim.ext_at(t))
                size = abs(change) + abs(heat) + abs(loss)
                if not p.therm.gnorm <= 1e-7 * (1 + size) / sim.mesh.n:
                    continue
                run.compared += 1
                run.count("heat balances")
                if not abs(change - heat + loss) <= 1e-7 * size + 3 * sim.mesh.n * p.therm.gnorm + 1e-9:
                    raise Violation(f"heat does not balance in step {k}: change {change!r}, heat "
                                    f"{heat!r}, loss {loss!r}", step=k)


# --- C13 -------------------------------------------------------------------------------------

OBSERVERS = ("plot", "save", "anim", "maxtemp", "query", "close")


def gen_observer(rng, cfg, steps, faults=0.4, sim=0):
    kind = g.pick(rng, (4, "plot"), (4, "save"), (2 if not cfg.get("reg") else 0.7, "anim"))
    op = {"op": kind, "sim": sim}
    if kind in ("plot", "save"):
        op["i"] = g.pick(rng, (5, rng.randrange(-steps, steps)), (1, steps + rng.randrange(3)),
                         (1, -steps - 1 - rng.randrange(3)), (1, -1), (1, 0))
    if kind == "save":
        op["path"] = rng.choice([None, "out", "a_b", "dir/x", "x.y"])
    if kind == "anim":
        op["path"] = rng.choice([None, "movie", "dir/m", "m.v"])
    if rng.random() < faults:
        if kind == "plot" or rng.random() < 0.2:
            op["faults"] = [{"site": "line", "frac": round(rng.random(), 4),
                             "kind": "kbd" if rng.random() < 0.6 else "memory",
                             "salt": rng.randrange(1000)}]
        elif kind == "save":
            op["faults"] = [{"site": "savefig", "nth": 1,
                             "kind": rng.choice(["kbd", "enospc", "torn", "readonly"])}]
        else:
            site = rng.choice(["encoder_start", "encoder", "encoder", "encoder_end"])
            op["faults"] = [{"site": site, "nth": rng.randint(1, steps) if site == "encoder" else 1,
                             "kind": {"encoder_start": "missing", "encoder_end": "fail",
                                      "encoder": rng.choice(["died", "kbd"])}[site]}]
    return op


def gen_c13(rng, tier, i):
    reg = rng.random() < 0.12
    cfg = g.gen_cfg(rng, reg=reg)
    if reg and rng.random() < 0.8:
        cfg.update(w=cfg["scale"], h=cfg["scale"], r=1)
    ops = [{"op": "construct", "sim": 0}]
    steps = 2
    if not reg and rng.random() < 0.04:
        cfg.update(w=cfg["scale"], h=cfg["scale"], fix=rng.choice([None, "left"]), mode="plugin")
        n = rng.choice([rng.randint(10, 50), 110])
        ops.append({"op": "run", "sim": 0, "n": n})
        ops += [{"op": rng.choice(["plot", "save"]), "sim": 0, "i": rng.randrange(-n, n)},
                {"op": "anim", "sim": 0}]
        return [cfg], ops
    if rng.random() < 0.3:
        cfg["glances"] = rng.choice([0.05, 0.2]) if cfg.get("traction") else 0.5
    for _ in range(rng.randint(2, 4)):
        for _ in range(rng.randint(1, 2)):
            op = gen_observer(rng, cfg, steps)
            ops.append(op)
            if op.get("faults"):
                again = {k: v for k, v in op.items() if k != "faults"}
                ops.append(again)
        n = rng.randint(1, 2)
        op = {"op": "run", "sim": 0, "n": n}
        if rng.random() < 0.15:
            op["faults"] = [g.gen_fault(rng, cfg, n)]
        else:
            steps += n
        ops.append(op)
        if rng.random() < 0.15:
            ops.append({"op": "close", "sim": 0})
    ops.append({"op": "save", "sim": 0, "i": -1, "path": "last"})
    return [cfg], ops


def triangles_of(sim, snap, count):
    """Deformed triangles and their temperatures for a plot with `count` cells."""
    if sim.reg:
        base_count = 2 * sim.fine.nx * sim.fine.ny
        p = math.isqrt(max(count // base_count, 0))
        if p < 1 or base_count * p * p != count:
            raise Violation(f"a plot has {count} cells, the temperature grid {base_count}")
        mesh = ref.Mesh(sim.fine.nx * p, sim.fine.ny * p, sim.fine.h / p)
        f = ref.C1Field(sim.mesh)
        pos = np.stack([f.eval(snap["y"][:, c], mesh.points)[:, 0] for c in range(2)], axis=1)
        val, _ = p1_eval(sim.fine, snap["theta"], mesh.points)
    else:
        mesh = sim.mesh
        if count != len(mesh.triangles):
            raise Violation(f"a plot has {count} cells instead of {len(mesh.triangles)}")
        pos, val = snap["y"], snap["theta"]
    return pos[mesh.triangles], val[mesh.triangles].mean(axis=1)


def check_cells(sim, axes, snap, what):
    shown = [c for a in axes for c in a["cells"]]
    if len(shown) != 1:
        raise Violation(f"{what} shows {len(shown)} coloured grids instead of one")
    c = shown[0]
    want, val = triangles_of(sim, snap, len(c["polys"]))
    got = np.asarray(c["polys"], float)[:, :3]
    size = 1e-6 * (np.abs(want).max() + np.ptp(want))
    cw, cg = want.mean(axis=1), got.mean(axis=1)
    if np.abs(cw - cg).max() <= size:
        order = np.arange(len(cw))
    else:
        order = np.argmin(np.sum((cw[:, None] - cg[None]) ** 2, axis=-1), axis=1)
        if len(set(order.tolist())) != len(order):
            raise Violation(f"{what} does not show the deformed grid")
    gs, vs = got[order], np.asarray(c["values"], float)[order]
    best = np.full(len(want), np.inf)
    for perm in ((0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (2, 1, 0), (1, 0, 2)):
        best = np.minimum(best, np.abs(gs[:, perm] - want).max(axis=(1, 2)))
    if not np.all(best <= size):
        raise Violation(f"{what} does not show the deformed grid (off by {np.nanmax(best)!r})")
    if not np.all(np.abs(vs - val) <= 1e-7 * (1 + np.abs(val))):
        raise Violation(f"{what} is not coloured by the temperatures of the step: {maxdiff(vs, val)}")


def judge_c13(sc, run):
    tr = run.execute(sc)
    expect_success(tr)
    sim = tr.sims[0]
    if sim.obj is None:
        return
    known_files = set()
    for where, name, n, i, value in sim.glances:
        if name == "error":
            raise Violation(f"looking at the simulation during a step failed ({where}): {value}")
        if name == "plot":
            run.compared += 1
            if len(value) != 1:
                raise Violation(f"plot_step({i}) during a step made {len(value)} figures")
            check_cells(sim, value[0], sim.snaps[i % n], f"plot_step({i}) during a step")
    for r in live_ops(sim):
        name, op = r.op["op"], r.op
        n = r.before
        if name in ("plot", "save", "anim") and r.after != r.before:
            raise Violation(f"{name} changed the number of recorded steps")
        if name in ("plot", "save", "anim") and r.rec1 != r.rec0:
            raise Violation(f"{name} called the solver")
        if name == "plot" and r.ok:
            run.compared += 1
            i = op["i"]
            if -n <= i < n:
                if len(r.value) != 1:
                    raise Violation(f"plot_step({i}) made {len(r.value)} figures")
                check_cells(sim, r.value[0], sim.snaps[i % n], f"plot_step({i})")
            elif r.value:
                raise Violation(f"plot_step({i}) made a figure although there are {n} steps")
        if name == "save":
            i = op["i"]
            path = op.get("path")
            new = {f for f, _ in r.files}
            if r.ok:
                run.compared += 1
                if -n <= i < n:
                    want = f"{'step' if path is None else path}_{i % n}.png"
                    saved = [rel(tr, f["path"]) for f in r.figs]
                    if saved != [want]:
                        raise Violation(f"save_step({i}, {path!r}) wrote {saved} instead of {want}")
                    check_cells(sim, r.figs[0]["content"], sim.snaps[i % n], f"save_step({i})")
                    if want not in new:
                        raise Violation(f"save_step({i}) left no file {want}")
                    known_files.add(want)
                elif r.figs or new - known_files:
                    raise Violation(f"save_step({i}) wrote {sorted(new - known_files)} although there "
                                    f"are {n} steps")
            known_files |= new
        if name == "anim":
            path = op.get("path")
            want = f"{'animation' if path is None else path}.mp4"
            if r.ok:
                if r.fired and not r.line_hit:
                    raise Violation(f"save_animation hid the failure {r.fired[0][1:]}")
                run.compared += 1
                if [rel(tr, v["path"]) for v in r.vids] != [want]:
                    raise Violation(f"save_animation({path!r}) wrote "
                                    f"{[rel(tr, v['path']) for v in r.vids]} instead of {want}")
                fr = r.vids[0]["frames"]
                if len(fr) != n:
                    raise Violation(f"the animation has {len(fr)} frames for {n} steps")
                for k, axes in enumerate(fr):
                    check_cells(sim, axes, sim.snaps[k], f"frame {k} of the animation")
            known_files |= {f for f, _ in r.files}
        if name in ("plot", "save") and r.ok and r.fired and not r.line_hit:
            raise Violation(f"{name} hid the failure {r.fired[0][1:]}")
    reread(sim)
    # nothing computed depends on having looked
    alone = twin_of(sc, len(sim.snaps) - 1)
    alone["sims"][0].pop("glances", None)
    twin = run.twin(alone)
    expect_success(twin)
    compare_histories(sim, twin.sims[0], run, "the simulation that was not looked at")


def rel(tr, path):
    root = tr.scratch + "/"
    return path[len(root):] if path.startswith(root) else path


def compare_histories(sim, other, run, name):
    if len(sim.snaps) != len(other.snaps):
        raise Violation(f"{len(sim.snaps)} steps instead of the {len(other.snaps)} of {name}")
    for k, (a, b) in enumerate(zip(sim.snaps, other.snaps)):
        run.compared += 1
        why = same_snap(a, b)
        if why:
            raise Violation(f"step {k} differs from {name}: {why}", step=k)
    pa, pb = by_step(sim), by_step(other)
    for k in range(1, len(sim.snaps)):
        if k not in pa or k not in pb:
            raise Violation(f"step {k} was recorded without being solved here or in {name}", step=k)
        for kind in ("mech", "therm"):
            run.compared += 1
            why = same_problem(getattr(pa[k], kind), getattr(pb[k], kind))
            if why:
                raise Violation(f"{kind} problem of step {k} differs from {name}: {why}", step=k)


# --- C14 -------------------------------------------------------------------------------------

def gen_c14(rng, tier, i):
    reg = rng.random() < 0.25
    cfg = g.gen_cfg(rng, reg=reg)
    if reg and rng.random() < 0.8:
        cfg.update(w=cfg["scale"], h=cfg["scale"],
                   r=1 if cfg["mode"] == "wire" else g.pick(rng, (3, 1), (2, 2)))
    if rng.random() < 0.4:
        # hot start, then cooler: the maximum is not in the last steps
        cfg["theta0"] = 4.0
        cfg["tmax"] = rng.choice([0.5, 2.0])
        cfg["radius"] = 10.0
    if rng.random() < 0.35:
        cfg["glances"] = rng.choice([0.05, 0.3]) if cfg.get("traction") else 0.5
    ops = g.construct(rng, cfg, 0.15)
    steps = 2
    if not reg and rng.random() < 0.06:
        n = rng.choice([rng.randint(15, 70), rng.randint(71, 130)])
        cfg.update(w=cfg["scale"], h=cfg["scale"], fix=rng.choice([None, "left"]), mode="plugin")
        ops.append({"op": "run", "sim": 0, "n": n})
        ops.append({"op": "maxtemp", "sim": 0})
        steps += n
    for _ in range(rng.randint(2, 4)):
        n = rng.randint(1, 3)
        op = {"op": "run", "sim": 0, "n": n}
        if rng.random() < 0.5:
            op["faults"] = [g.gen_fault(rng, cfg, n)]
        else:
            steps += n
        ops.append(op)
        ops.append({"op": "maxtemp", "sim": 0})
        k = rng.random()
        if k < 0.6:
            ops.append({"op": "plot", "sim": 0, "i": rng.choice([0, -1, -2, 1, 0])})
        elif k < 0.75:
            ops.append({"op": "save", "sim": 0, "i": rng.choice([0, -1, -2]), "path": "s"})
        elif k < 0.9 and not reg:
            ops.append({"op": "anim", "sim": 0, "path": "m"})
    ops += [{"op": "plot", "sim": 0, "i": 0}, {"op": "plot", "sim": 0, "i": -1}]
    return [cfg], ops


def judge_c14(sc, run):
    tr = run.execute(sc)
    expect_success(tr)
    sim = tr.sims[0]
    if sim.obj is None:
        return
    for where, name, n, i, value in sim.glances:
        if name == "error":
            raise Violation(f"looking at the simulation during a step failed ({where}): {value}")
        judge_scale(sim, n, name, value, run, " during a step")
    for r in live_ops(sim):
        name = r.op["op"]
        if not r.ok or name not in ("maxtemp", "plot", "save", "anim"):
            continue
        value = (r.value if name in ("plot", "maxtemp") else
                 [f["content"] for f in r.figs] if name == "save" else
                 [f for v in r.vids for f in v["frames"]])
        judge_scale(sim, r.before, name, value, run)


def judge_scale(sim, n, name, value, run, when=""):
    """Colour scale and window of what was shown when there were n steps."""
    snaps = sim.snaps[:n]
    tmax = max(float(s["theta"].max()) for s in snaps)
    pos = np.concatenate([s["y"][..., 0] if sim.reg else s["y"] for s in snaps])
    lims = [(pos[:, c].min(), pos[:, c].max()) for c in range(2)]
    tol_t = 1e-9 * (1 + tmax)
    tol = 1e-9 * (np.abs(pos).max() + np.ptp(pos))
    if name == "maxtemp":
        run.compared += 1
        if abs(value - tmax) > tol_t:
            raise Violation(f"max_temp(){when} is {value!r}, the history reaches {tmax!r}")
        return
    for axes in value:
        for a in axes:
            for c in a["cells"]:
                run.compared += 1
                lo, hi = c["clim"]
                if lo is None or hi is None or abs(lo) > tol_t or abs(hi - tmax) > tol_t:
                    raise Violation(f"colour scale of {name}{when} is {c['clim']} instead of "
                                    f"(0, {tmax!r})")
            if not a["cells"]:
                continue
            for lab, got, want in (("x", a["xlim"], lims[0]), ("y", a["ylim"], lims[1])):
                run.compared += 1
                if abs(got[0] - want[0]) > tol or abs(got[1] - want[1]) > tol:
                    raise Violation(f"{lab} window of {name}{when} is {got} instead of "
                                    f"({float(want[0])!r}, {float(want[1])!r})")


# --- C15 -------------------------------------------------------------------------------------

def relative(rng, cfg):
    """A simulation that has almost everything in common with another one."""
    c = copy.deepcopy(cfg)
    c["aseed"] = rng.randrange(10 ** 6)
    k = rng.choice(["same", "fix", "fps", "theta0", "radius", "loads", "scale", "turned", "form",
                    "near", "near"])
    if k == "fix":
        c["fix"] = g.gen_fix(rng)
    elif k == "fps":
        c["fps"] = rng.choice([1, 3, 10, 7.5, 2.0])
    elif k == "theta0":
        c["theta0"] = rng.choice([0.0, 0.4, 1.5])
    elif k == "radius":
        c["radius"] = rng.choice([0.3, 1.0, 10.0, 25.0])
    elif k == "loads":
        c["traction"] = g.gen_traction(rng, c["fps"])
        c["ext"] = g.gen_ext(rng, c["fps"])
    elif k == "scale" and g.mesh_of(cfg).n <= 6:
        # the same body with another grid
        c["scale"] = c["scale"] / 2
    elif k == "near":
        # almost the same number somewhere
        f = 1 + rng.choice([1e-3, -1e-3, 1e-4, 1e-5])
        what = rng.choice(["size", "size", "fps", "radius", "theta0", "reg"])
        for x in ("w", "h", "scale") if what == "size" else (what,):
            if c.get(x):
                c[x] = c[x] * f
        if ref.cells(c["w"], c["scale"]) != g.mesh_of(cfg).nx or \
                ref.cells(c["h"], c["scale"]) != g.mesh_of(cfg).ny:
            c = dict(copy.deepcopy(cfg), aseed=c["aseed"])
    elif k == "turned":
        c["w"], c["h"] = c["h"], c["w"]
    elif k == "form" and not c.get("reg") and g.mesh_of(cfg).n <= 4:
        c.update(reg=rng.choice([0.0, 0.5]), r=1)
    elif k == "form" and c.get("reg"):
        c["reg"] = c["reg"] + 0.5
    if c.get("reg") is None and len(ref.clamped_vertices(g.mesh_of(c), c["fix"])) >= g.mesh_of(c).n:
        return dict(copy.deepcopy(cfg), aseed=c["aseed"])
    return c


def gen_c15(rng, tier, i):
    lives = rng.random() < 0.1   # one short life after the other
    n = rng.randint(4, 8) if lives else g.pick(rng, (4, 2), (2, 3), (0.3, 4))
    share = rng.random() < (0.2 if lives else 0.6)
    twins = not lives and rng.random() < 0.1   # regularised bodies of similar size
    n = 2 if twins else n
    cfgs = []
    for k in range(n):
        if twins:
            c = copy.deepcopy(cfgs[0]) if k else g.gen_cfg(rng, reg=True, fine=False, tiny=True)
            f = rng.choice([1.001, 0.9999, 1.04, 0.5, 3.0]) if k else 1
            if g.mesh_of(dict(c, w=c["w"] * f, h=c["h"] * f, scale=c["scale"] * f)).n == g.mesh_of(c).n:
                c.update(w=c["w"] * f, h=c["h"] * f, scale=c["scale"] * f)
        elif k and rng.random() < 0.85:
            c = relative(rng, rng.choice(cfgs))
        else:
            c = g.gen_cfg(rng, reg=not lives and rng.random() < 0.1, fine=False, tiny=n > 3)
        c["mode"] = "plugin" if rng.random() < 0.85 else c["mode"]
        cfgs.append(c)
    threads = not lives and rng.random() < 0.5
    if threads:
        for c in cfgs:
            c["mode"] = "plugin"
    ops = []
    per = []
    for k in range(n):
        o = [{"op": "construct", "sim": k}]
        some = rng.randint(1, 2) if lives or cfgs[k].get("reg") is not None else rng.randint(2, 5)
        for m in [1] if twins or cfgs[k].get("reg") is not None and g.mesh_of(cfgs[k]).nx * g.mesh_of(
                cfgs[k]).ny > 1 else g.split(rng, some):
            op = {"op": "run", "sim": k, "n": m}
            if rng.random() < 0.15:
                op["faults"] = [g.gen_fault(rng, cfgs[k], m, sites=("solver", "load"))]
            o.append(op)
        if rng.random() < 0.3 and not threads:
            o.append(gen_observer(rng, cfgs[k], 2, faults=0.2, sim=k))
            o.append({"op": "run", "sim": k, "n": 1})
        if rng.random() < (0.3 if cfgs[k].get("reg") is None else 0.7):
            o.append({"op": "query", "sim": k, "qseed": rng.randrange(100), "n": 2})
        if rng.random() < 0.2:
            o.append({"op": "maxtemp", "sim": k})
        if rng.random() < (0.9 if lives else 0.2):
            o.append({"op": "drop", "sim": k})
        per.append(o)
    if lives or not threads and rng.random() < 0.25:
        # one life after the other
        order = list(range(n))
        rng.shuffle(order)
        ops = [op for k in order for op in per[k]]
    else:
        while any(per):
            k = rng.choice([k for k in range(n) if per[k]])
            ops.append(per[k].pop(0))
    kw = {}
    if share:
        kw["share"] = True
    if threads:
        kw["threads"] = rng.randrange(1, 10 ** 6)
    return cfgs, ops, kw


def different_answers(a, b):
    if not isinstance(a, dict):
        return None if same_number(a, b) else f"{a!r} instead of {b!r}"
    for (k, x), (l, y) in zip(a["values"], b["values"]):
        for p, u, v in zip(a["points"], x, y):
            for c, (s, t) in enumerate(zip(u, v)):
                if not same_number(s, t):
                    return f"entry {c} of step {k} at {tuple(map(float, p))} is {s!r} instead of {t!r}"
    if [o[3] for o in a["outside"]] != [o[3] for o in b["outside"]]:
        return "points outside of the body are treated differently"
    return None


def same_number(a, b):
    return a == b or abs(a - b) <= 1e-9 * (1 + max(abs(a), abs(b))) or a != a and b != b


def judge_c15(sc, run):
    tr = run.execute(sc)
    for r in tr.ops:
        if not r.ok and not r.fired:
            raise Violation(f"operation {r.index} ({r.op['op']}) failed without a fault: {r.etype}: "
                            f"{r.error}", trace=r.trace)
    for k, sim in enumerate(tr.sims):
        alone = copy.deepcopy(sc)
        alone.pop("share", None)
        alone.pop("threads", None)
        alone["sims"] = [copy.deepcopy(sc["sims"][k])]
        alone["ops"] = [dict(op, sim=0) for op in copy.deepcopy(sc["ops"]) if op["sim"] == k]
        tw = run.twin(alone)
        other = tw.sims[0]
        a, b = sim.ops, other.ops
        for x, y in zip(a, b):
            run.compared += 1
            if (x.ok, x.etype, x.after) != (y.ok, y.etype, y.after):
                raise Violation(f"simulation {k}: operation {x.op['op']} ended with "
                                f"{x.etype or 'success'} and {x.after} steps, alone with "
                                f"{y.etype or 'success'} and {y.after} steps", sim=k)
            if x.ok and x.op["op"] in ("query", "maxtemp"):
                why = different_answers(x.value, y.value)
                if why:
                    raise Violation(f"simulation {k}: {x.op['op']} gives other values than alone: "
                                    f"{why}", sim=k)
        if len(sim.records) != len(other.records):
            raise Violation(f"simulation {k} called the solver {len(sim.records)} times, alone "
                            f"{len(other.records)} times", sim=k)
        for x, y in zip(sim.records, other.records):
            run.compared += 1
            why = same_problem(x, y)
            if why or x.step != y.step:
                raise Violation(f"simulation {k}: {x.kind} problem of step {x.step} differs from the "
                                f"one posed when running alone: {why}", sim=k)
        if [c[0::3] for c in sim.calls] != [c[0::3] for c in other.calls]:
            raise Violation(f"simulation {k} consulted its loads differently than alone", sim=k)
        if sim.snaps and other.snaps:
            if len(sim.snaps) != len(other.snaps):
                raise Violation(f"simulation {k} has {len(sim.snaps)} steps, alone {len(other.snaps)}")
            for j, (x, y) in enumerate(zip(sim.snaps, other.snaps)):
                why = same_snap(x, y)
                if why:
                    raise Violation(f"simulation {k}: step {j} differs from running alone: {why}", sim=k)
            reread(sim)


# --- C16 -------------------------------------------------------------------------------------

def gen_c16(rng, tier, i):
    long = rng.random() < 0.15
    cfg = g.gen_cfg(rng, reg=not long and rng.random() < 0.1, fine=False, tiny=long)
    if long:
        cfg["mode"] = "plugin"
    total = rng.choice([rng.randint(10, 45), rng.randint(46, 140)]) if long else rng.randint(2, 9)
    ops = [{"op": "construct", "sim": 0}]
    for n in g.split(rng, total):
        op = {"op": "run", "sim": 0, "n": n}
        if n == 1 and rng.random() < 0.5:
            op["default"] = True
        elif rng.random() < 0.3:
            op["kw"] = True
        ops.append(op)
        if rng.random() < 0.15:
            ops.append({"op": "run", "sim": 0, "n": rng.choice([0, -1])})
    return [cfg], ops


def judge_c16(sc, run):
    tr = run.execute(sc)
    total = 0
    for r in tr.ops:
        if r.op["op"] == "run" and r.op["n"] <= 0:
            continue
        if not r.ok:
            raise Violation(f"operation {r.index} failed without a fault: {r.etype}: {r.error}",
                            trace=r.trace)
        if r.op["op"] == "run":
            total += r.op["n"]
    sim = tr.sims[0]
    variants = [[total]] if total else []
    if total > 1:
        variants.append([1] * total)
    for parts in variants:
        other = copy.deepcopy(sc)
        other["ops"] = [{"op": "construct", "sim": 0}] + [{"op": "run", "sim": 0, "n": n} for n in parts]
        tw = run.twin(other)
        expect_success(tw)
        compare_histories(sim, tw.sims[0], run, f"the run split as {parts}")
        a = [(c[0], c[3]) for c in sim.calls]
        b = [(c[0], c[3]) for c in tw.sims[0].calls]
        if not same_calls(a, b):
            raise Violation(f"loads are consulted differently when the run is split as {parts}")


def same_calls(a, b):
    if len(a) != len(b):
        return False
    return all(x[0] == y[0] and len(x[1]) == len(y[1]) and
               all(same_time(p, q) for p, q in zip(x[1], y[1])) for x, y in zip(a, b))


# --- C24 -------------------------------------------------------------------------------------

def gen_c24(rng, tier, i):
    reg = rng.random() < 0.06
    cfg = g.gen_cfg(rng, reg=reg, fine=False, tiny=not reg)
    if reg:
        cfg.update(w=cfg["scale"], h=cfg["scale"])
    cfg.update(effort=True, mode="plugin" if rng.random() < 0.95 or reg else "wire")
    total = rng.randint(8, 14) if reg or cfg["mode"] == "wire" else rng.randint(25, 80)
    ops = g.construct(rng, cfg, 0.1)
    ops += [{"op": "run", "sim": 0, "n": 1, "count": True} for _ in range(3)]
    for n in g.split(rng, total):
        if rng.random() < 0.15:
            m = rng.randint(1, 3)
            ops.append({"op": "run", "sim": 0, "n": m,
                        "faults": [g.gen_fault(rng, cfg, m, sites=("solver", "load"))]})
        if rng.random() < 0.05:
            ops.append(gen_observer(rng, cfg, 3))
        ops.append({"op": "run", "sim": 0, "n": n, "count": True})
    ops.append({"op": "run", "sim": 0, "n": 1, "count": True})
    return [cfg], ops


SIZES = ("unknowns", "constraints", "components", "terms in the objective")


def judge_c24(sc, run):
    tr = run.execute(sc)
    expect_success(tr)
    sim = tr.sims[0]
    if sim.obj is None:
        return
    early, lines = {}, None
    for step, what, depth, size in sim.effort:
        seen = early.setdefault(what, [0, (0,) * 4])
        run.compared += 1
        if step <= 4:
            early[what] = [max(seen[0], depth),
                           tuple(map(max, seen[1], size)) if size else seen[1]]
            continue
        if depth > seen[0] + 5:
            raise Violation(f"step {step}: {what} is called {depth} levels deep, {seen[0]} at first",
                            step=step)
        for name, now, then in zip(SIZES, size or (), seen[1]):
            if now > 1.5 * then + 3:
                raise Violation(f"step {step}: the {what} problem has {now} {name}, {then} at first",
                                step=step)
    for r in live_ops(sim):
        if "count" not in r.op:
            continue
        n = r.op["n"]
        run.compared += 2
        if r.rec1 - r.rec0 != 2 * n:
            raise Violation(f"{n} steps called the solver {r.rec1 - r.rec0} times")
        per = r.nlines / n
        if r.after <= 5:
            lines = max(lines or 0, per)
        elif per > 1.25 * lines + 40:
            raise Violation(f"step {r.after - 1} executed {per:.0f} lines, {lines:.0f} at first",
                            step=r.after - 1)
        calls = (r.call1 - r.call0) / n
        if r.after <= 5:
            early["calls"] = max(early.get("calls", 0), calls)
        elif calls > 2 * early["calls"]:
            raise Violation(f"step {r.after - 1} consulted the loads {calls:.0f} times, "
                            f"{early['calls']:.0f} times at first", step=r.after - 1)


# --- C25 -------------------------------------------------------------------------------------

def gen_c25(rng, tier, i):
    sims, ops = gen_plain(rng, tier, i, reg=0.6, faults=0.25, n=(1, 4), fine=False,
                          policy=lambda r: r.choice(["perturb", "mixed", "mixed", "lazy", "descent"]))
    cfg = sims[0]
    cfg["probe"] = True
    if cfg.get("reg") is not None:
        if cfg["mode"] == "plugin" and cfg["w"] * cfg["h"] < 2.5 * cfg["scale"] ** 2:
            one = cfg["w"] * cfg["h"] < 1.5 * cfg["scale"] ** 2
            cfg["r"] = g.pick(rng, (1, 1), (2, 2), (2 if one else 1, 3))
            if cfg["r"] > 1:
                del ops[5:]
                for op in ops:
                    if op["op"] == "run":
                        op["n"] = 1
        if rng.random() < 0.35:
            cfg["fix"] = rng.sample(g.SIDES, rng.choice([3, 4, 4]))
    return sims, ops


def judge_c25(sc, run):
    tr = run.execute(sc)
    expect_success(tr)
    for sim in tr.sims:
        start0 = initial(sim)
        mech = None
        for rec in sim.records:
            if rec.kind == "mech":
                mech = rec
            prev = state_before(sim, rec.step) or (start0 if rec.step == 1 else None)
            if prev is None or rec.probe is None:
                continue
            run.compared += 1
            y = prev["y"]
            name = f"the {rec.kind} problem of step {rec.step}"
            # a solver keeps to deformations that preserve the orientation, the energy is infinite else
            volumes = [sim.problem.volume(y)]
            if rec.kind == "therm" and mech is not None and mech.answer is not None:
                volumes.append(sim.problem.volume(shape_y(sim, mech.answer)))
            f, bad, equations = rec.probe
            if not np.all(np.isfinite(rec.start)):
                raise Violation(f"{name} has no starting point", step=rec.step)
            if min(volumes) > 1e-3:
                if not np.isfinite(f):
                    raise Violation(f"the objective of {name} cannot be evaluated at the starting point "
                                    f"({f!r})", step=rec.step)
                if bad:
                    raise Violation(f"the derivatives of the objective of {name} cannot be evaluated at "
                                    f"the starting point ({len(bad)} unknowns)", step=rec.step)
            lo, hi, x = rec.lb[~rec.fixed], rec.ub[~rec.fixed], rec.start[~rec.fixed]
            if np.any(lo > hi):
                raise Violation(f"{name} has an unknown without admissible value", step=rec.step)
            free = int(np.sum(lo < hi))
            if not free:
                raise Violation(f"{name} has no unknown", step=rec.step)
            if equations > free:
                raise Violation(f"{name} has {equations} equations for {free} unknowns", step=rec.step)
            slack = 1e-6 * (1 + np.abs(x))
            if not (np.all(x >= lo - slack) and np.all(x <= hi + slack)):
                raise Violation(f"{name} starts outside its bounds", step=rec.step)
            if len(rec.A):
                size = 1 + np.abs(rec.A) @ np.abs(rec.start) + np.abs(rec.b)
                if not np.all(np.abs(rec.A @ rec.start - rec.b) <= 1e-6 * size):
                    raise Violation(f"{name} starts at a point that violates its equations",
                                    step=rec.step)


WITH_TWIN = ("C03", "C08", "C13", "C15", "C16")
PROPERTIES = {k.upper(): (globals()[f"gen_{k}"], globals()[f"judge_{k}"])
              for k in [f"c{n:02d}" for n in (*range(1, 17), 24, 25)]}


# one in so many scenarios has a body with hundreds of nodes
HUGE = ("C02", "C04", "C05", "C06", "C08", "C09", "C13", "C14")
HUGE_EVERY = 140


def enlarge(rng, cfg, ops, cost):
    nx, ny = rng.choice([(130, 1), (1, 130)] if cost > 1 else
                        [(130, 1), (1, 130), (17, 15), (40, 6), (5, 52)])
    cfg.update(w=round(nx * cfg["scale"], 10), h=round(ny * cfg["scale"], 10), mode="plugin",
               fix=g.gen_fix(rng))
    del ops[4 if cost > 1 else 5:]
    for op in ops:
        if op["op"] in ("run", "reach"):
            op["n"] = min(op["n"], 2)
        if op["op"] == "anim":
            op["op"], op["i"] = "plot", -1
            op.pop("faults", None)


# one in so many scenarios runs for hundreds of steps
MARATHON = ("C01", "C02", "C03", "C04", "C06", "C08", "C09", "C10", "C14", "C16", "C24")
MARATHON_EVERY = 60


def prolong(rng, prop, cfg, ops, tier):
    """Replace the operations by a history of hundreds of steps on the smallest body."""
    cfg.update(w=cfg["scale"], h=cfg["scale"], mode="plugin", fix=rng.choice([None, [], "left", "upper"]))
    cfg.pop("glances", None)
    most = 520 if prop in WITH_TWIN + ("C02", "C14") else 1300
    n = rng.choice([rng.randint(140, most), rng.choice([m for m in (256, 300, 512, 600, 1000, 1024) if m <= most] or
                                                       [most])])
    if tier == "thorough":
        n *= 3
    run = lambda m, **kw: {"op": "run", "sim": 0, "n": m, **kw}  # noqa: E731
    del ops[:]
    ops.append({"op": "construct", "sim": 0})
    if prop == "C24":
        ops += [run(1, count=True) for _ in range(3)] + [run(n), run(1, count=True), run(2, count=True)]
        return
    if prop == "C16":
        ops += [run(n // 2), run(1), run(n - n // 2)]
        return
    ops.append(run(n))
    if prop in ("C01", "C03", "C08"):
        for _ in range(2):
            ops += [run(3, faults=[g.gen_fault(rng, cfg, 3)]), run(rng.randint(1, 3))]
    if prop == "C02":
        ops += [{"op": "query", "sim": 0, "qseed": 3, "n": 2}, run(2),
                {"op": "query", "sim": 0, "qseed": 3, "n": 2}]
    if prop == "C14":
        ops += [{"op": "maxtemp", "sim": 0}, {"op": "plot", "sim": 0, "i": rng.randrange(-n, n)}, run(2),
                {"op": "maxtemp", "sim": 0}, {"op": "plot", "sim": 0, "i": 0}]


# one in so many scenarios meets dozens of failures in a row
STORM = ("C01", "C03", "C04", "C08", "C11", "C12", "C24")
STORM_EVERY = 25


def fail_often(rng, cfg, ops, sites):
    at = [k for k, op in enumerate(ops) if op["op"] in ("run", "construct") and "faults" not in op]
    storm = []
    for _ in range(rng.randint(8, 45)):
        n = rng.randint(1, 2)
        f = g.gen_fault(rng, cfg, n, sites=sites)
        f["nth"] = min(f["nth"], 2)
        storm.append({"op": "run", "sim": 0, "n": 1, "faults": [f]})
    k = rng.choice(at)
    ops[k + 1:k + 1] = storm


def generate(prop, seed, index, tier):
    rng = g.rng_for(seed, prop, index)
    out = PROPERTIES[prop][0](rng, tier, index)
    sims, ops = out[0], out[1]
    kw = out[2] if len(out) > 2 else {}
    if prop in MARATHON and index % MARATHON_EVERY == 17 and sims[0].get("reg") is None and len(sims) == 1:
        prolong(rng, prop, sims[0], ops, tier)
    if prop in STORM and index % STORM_EVERY == 11 and len(sims) == 1 and (
            sims[0].get("reg") is None and (sims[0]["mode"] == "plugin" or prop == "C11")):
        fail_often(rng, sims[0], ops, ("solver",) if prop == "C11" else ("solver", "load"))
    if prop in HUGE and index % HUGE_EVERY == HUGE_EVERY // 2 and sims[0].get("reg") is None:
        enlarge(rng, sims[0], ops, 2 if prop in WITH_TWIN + ("C14",) else 1)
    return g.fix_faults(base(rng.randrange(10 ** 9), prop, sims, ops, **kw))


def judge(scenario):
    """Execute and judge one scenario.  Returns (violation or None, Run)."""
    from . import world as W
    run = Run()
    try:
        PROPERTIES[scenario["prop"]][1](scenario, run)
        return None, run
    except Violation as v:
        return {"what": v.what, "details": v.details}, run
    except W.ModelMismatch as e:
        return {"what": f"the posed problem is not the documented one: {e}", "details": {}}, run
    except W.Unreadable as e:
        return {"what": str(e), "details": {}}, run
    except W.HarnessLimit as e:
        return {"what": f"no progress: {e}", "details": {}}, run
