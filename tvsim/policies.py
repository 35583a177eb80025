"""What the simulated solver answers.

Every answer is a function of (answer seed, kind of problem, logical step, problem), so that a
repeated attempt at the same step gets the same answer.
"""

import numpy as np

from . import reference as ref


def _null_projector(rec):
    free = ~rec.fixed
    if not len(rec.A):
        return free, None
    A = rec.A[:, free]
    u, s, vt = np.linalg.svd(A, full_matrices=True)
    rank = int(np.sum(s > 1e-9 * max(1.0, s[0] if len(s) else 1)))
    N = vt[rank:].T
    return free, N


def _project_step(rec, d):
    """Direction d made compatible with fixed unknowns and equality constraints."""
    free, N = _null_projector(rec)
    out = np.zeros_like(d)
    if N is None:
        out[free] = d[free]
    else:
        out[free] = N @ (N.T @ d[free])
    return out


def _move(rec, target):
    """Feasible point near target: projected on the constraints, kept within the bounds."""
    d = _project_step(rec, target - rec.start)
    if not len(rec.A):
        return np.clip(rec.start + d, np.minimum(rec.lb, rec.start), np.maximum(rec.ub, rec.start))
    with np.errstate(all="ignore"):
        lim = np.where(d > 0, (rec.ub - rec.start) / d, np.where(d < 0, (rec.lb - rec.start) / d, np.inf))
    alpha = min(1.0, max(0.0, float(np.min(lim)))) if np.any(np.isfinite(lim)) else 1.0
    return rec.start + alpha * d


def _identity(sim):
    m = sim.mesh
    if not sim.reg:
        return m.points.copy()
    y = np.zeros((m.n, 2, 6))
    y[:, :, 0] = m.points
    y[:, 0, 1] = 1
    y[:, 1, 2] = 1
    return y


def roams(sim):
    """The whole body moves about."""
    m = sim.mesh
    return not ref.fixed_sides(sim.fix) and sim.cfg["radius"] >= 4 * max(m.nx, m.ny) * m.h


def perturb(sim, view, rec):
    rng = np.random.default_rng([sim.cfg["aseed"], 5, rec.step, int(rec.kind == "mech")])
    amp = sim.cfg.get("amp", 1.0)
    if rec.kind == "therm":
        n = view.n
        hi = sim.cfg.get("tmax", 3.0)
        t = rng.uniform(0, hi, n)
        t[rng.random(n) < 0.15] = 0.0
        x = np.clip(t, rec.lb, rec.ub)
    else:
        m = sim.mesh
        y = _identity(sim)
        if roams(sim):
            # whole-body motion: rotation, stretch, translation
            phi = rng.uniform(-np.pi, np.pi)
            R = np.array([[np.cos(phi), -np.sin(phi)], [np.sin(phi), np.cos(phi)]])
            S = np.eye(2) + 0.2 * rng.uniform(-1, 1, (2, 2))
            A, c = R @ S, rng.uniform(-1, 1, 2) * m.h
            if sim.reg:
                y = np.einsum("ij,njd->nid", A, y)
                y[:, :, 0] += c
            else:
                y = y @ A.T + c
        if sim.reg:
            w = np.array([0.03, 0.06, 0.06, 0.15, 0.15, 0.15]) * m.h * m.h ** -ref._ORDER.astype(float)
            y = y + amp * w * rng.uniform(-1, 1, y.shape)
        else:
            y = y + amp * 0.13 * m.h * rng.uniform(-1, 1, y.shape)
        x = _move(rec, y.ravel())
    return x, {}


def _descend(view, rec, iterations):
    """Projected gradient with backtracking; never increases the objective."""
    x = rec.start.copy()
    f, g = view.value_grad(x)
    step = None
    info = {}
    if not np.isfinite(f):
        return x, info
    prev = None
    for _ in range(iterations):
        d = _project_step(rec, -g)
        nrm = float(np.max(np.abs(d))) if len(d) else 0.0
        if nrm < 1e-12:
            break
        if step is None:
            step = 0.1 / nrm
        elif prev is not None:
            s, yv = x - prev[0], g - prev[1]
            sy = float(s @ yv)
            if sy > 0:
                step = float(s @ s) / sy
        ok = False
        for _ in range(25):
            if len(rec.A):
                with np.errstate(all="ignore"):
                    lim = np.where(d > 0, (rec.ub - x) / d, np.where(d < 0, (rec.lb - x) / d, np.inf))
                a = min(step, max(0.0, float(np.min(lim))))
                xn = x + a * d
            else:
                xn = np.where(rec.fixed, x, np.clip(x + step * d, rec.lb, rec.ub))
            fn, gn = view.value_grad(xn)
            if np.isfinite(fn) and fn <= f:
                ok = True
                break
            step *= 0.25
        if not ok:
            break
        prev = (x, g)
        done = f - fn <= 1e-14 * abs(f)
        x, f, g = xn, fn, gn
        if done:
            break
    return x, info


def iterations(sim, rec, usual):
    """Some solves stop at once."""
    rng = np.random.default_rng([sim.cfg["aseed"], 11, rec.step, int(rec.kind == "mech")])
    return int(rng.integers(0, 2)) if rng.random() < sim.cfg.get("tired", 0) else sim.cfg.get("iters", usual)


def descent(sim, view, rec):
    return _descend(view, rec, iterations(sim, rec, 15))


def accurate(sim, view, rec):
    """Thermal problems: damped Newton with finite difference Hessian.  Mechanical: long descent."""
    if rec.kind == "mech":
        return _descend(view, rec, iterations(sim, rec, 40))
    x = np.maximum(rec.start, rec.lb)
    n = view.n
    free = ~rec.fixed
    gn = np.inf
    for _ in range(30):
        f, g = view.value_grad(x)
        gn = float(np.max(np.abs(g[free]))) if free.any() else 0.0
        if gn < 1e-11 * (1 + abs(f)):
            break
        H = np.empty((n, n))
        for k in range(n):
            h = 1e-5 * max(1.0, abs(x[k]))
            xp = x.copy(); xp[k] += h
            xm = x.copy(); xm[k] -= h
            H[:, k] = (view.value_grad(xp)[1] - view.value_grad(xm)[1]) / (2 * h)
        if not np.all(np.isfinite(H)):
            break
        H = (H + H.T) / 2
        w, V = np.linalg.eigh(H)
        w = np.maximum(np.abs(w), 1e-8 * np.max(np.abs(w)))
        d = -V @ ((V.T @ g) / w)
        a = 1.0
        while a > 1e-8:
            xn = np.where(rec.fixed, x, np.clip(x + a * d, rec.lb, rec.ub))
            fn = view.objective(xn[:, None])[0]
            if np.isfinite(fn) and fn <= f + 1e-14 * abs(f):
                break
            a *= 0.5
        else:
            break
        if np.max(np.abs(xn - x)) < 1e-15:
            x = xn
            break
        x = xn
    f, g = view.value_grad(x)
    gn = float(np.max(np.abs(g[free]))) if free.any() else 0.0
    active = bool(np.any((x <= rec.lb + 1e-9) | (x >= rec.ub - 1e-9)))
    return x, {"gnorm": gn, "active": active}


def lazy(sim, view, rec):
    """The solver finds that the start is optimal."""
    return rec.start.copy(), {}


def mixed(sim, view, rec):
    """Large, small and no changes, of all unknowns or of one, up to the bounds."""
    rng = np.random.default_rng([sim.cfg["aseed"], 9, rec.step, int(rec.kind == "mech")])
    # quiet phases: several steps in a row
    phase = np.random.default_rng([sim.cfg["aseed"], 10, rec.step // 3])
    k = rng.random() if phase.random() > 0.25 else 0.5 + 0.2 * rng.random()
    x, info = perturb(sim, view, rec)
    if k < 0.5:
        return x, info
    if k < 0.63:
        return lazy(sim, view, rec)
    unit = np.full(len(x), sim.mesh.h) if rec.kind == "mech" else np.ones(len(x))
    if sim.reg and rec.kind == "mech":
        unit = np.tile(sim.mesh.h * sim.mesh.h ** -ref._ORDER.astype(float), sim.mesh.n * 2)
    if k < 0.8:
        eps = 10.0 ** -rng.integers(2, 9)
        if rng.random() < 0.5:
            d = eps * unit * rng.uniform(-1, 1, len(x))
        else:
            # close to the start, in the direction of the large change
            d = eps * (x - rec.start)
        return _move(rec, rec.start + d), info
    if rec.kind == "mech" and roams(sim):
        return x, info  # one node alone would leave the others behind
    if k < 0.93 or rec.kind == "mech":
        one = np.zeros(len(x))
        one[rng.integers(len(x))] = 1.0
        return _move(rec, rec.start + one * (x - rec.start)), info
    return np.where(rng.random(len(x)) < 0.5, rec.lb, np.clip(50.0, rec.lb, rec.ub)), info


def answer(sim, view, rec):
    pol = sim.cfg.get("policy", "perturb")
    x, info = {"perturb": perturb, "descent": descent, "accurate": accurate, "lazy": lazy,
               "mixed": mixed}[pol](sim, view, rec)
    relax = sim.cfg.get("relax", 0.0)
    if relax:
        # a real interior point solver relaxes bounds by about 1e-8
        rng = np.random.default_rng([sim.cfg["aseed"], 6, rec.step, int(rec.kind == "mech")])
        if not len(rec.A):
            hit = rng.random(len(x)) < 0.3
            low = rng.random(len(x)) < (0.5 if rec.kind == "mech" else 0.8)
            lo = rec.lb - relax * np.maximum(1, np.abs(rec.lb))
            hi = rec.ub + relax * np.maximum(1, np.abs(rec.ub))
            if rec.kind == "mech":
                # only where the bound is close, such that cells stay oriented
                near = 0.05 * sim.mesh.h
                x = np.where(hit & (x - rec.lb < near), lo, np.where(hit & (rec.ub - x < near), hi, x))
            else:
                x = np.where(hit, np.where(low, lo, hi), x)
    return x, info
