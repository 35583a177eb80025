"""Reading recorded executions: completed steps, comparisons, statistics."""

import numpy as np

RAISING = {"raise", "kbd", "exit", "oserror", "stop", "memory", "negative", "eio", "epipe", "closed"}


class Violation(BaseException):
    """The property does not hold in this execution."""

    def __init__(self, what, **details):
        super().__init__(what)
        self.what = what
        self.details = details


class Pair:
    """A completed attempt at a step: both problems were solved."""

    __slots__ = ("step", "mech", "therm", "op")

    def __init__(self, mech, therm, op):
        self.step, self.mech, self.therm, self.op = mech.step, mech, therm, op


def pairs_of(sim, r):
    """Completed solver pairs within one operation."""
    out = []
    mech = None
    for rec in sim.records[r.rec0:r.rec1]:
        if rec.kind == "mech":
            mech = rec if rec.outcome == "ok" else None
        else:
            if mech is not None and rec.outcome == "ok":
                out.append(Pair(mech, rec, r.index))
            mech = None
    return out


def attempts_of(sim):
    """(mech record or None, therm record or None, operation) for every attempt at a step of the
    object that is alive at the end."""
    out = []
    start = 0
    for k, r in enumerate(sim.ops):
        if r.op["op"] == "construct":
            start = k
    for r in sim.ops[start:]:
        mech = None
        for rec in sim.records[r.rec0:r.rec1]:
            if rec.kind == "mech":
                if mech is not None:
                    out.append((mech, None, r))
                mech = rec
            else:
                out.append((mech, rec, r))
                mech = None
        if mech is not None:
            out.append((mech, None, r))
    return out


def live_ops(sim):
    start = 0
    for k, r in enumerate(sim.ops):
        if r.op["op"] == "construct":
            start = k
    return sim.ops[start:]


def history_pairs(sim):
    """The completed pair behind each recorded step 1, 2, ... (the last one per step counts)."""
    by_step = {}
    for r in live_ops(sim):
        for p in pairs_of(sim, r):
            by_step[p.step] = p
    n = len(sim.snaps)
    missing = [k for k in range(1, n) if k not in by_step]
    if missing:
        raise Violation(f"step {missing[0]} was recorded although its two problems were not both "
                        "solved", step=missing[0])
    return [by_step[k] for k in range(1, n)]


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    with np.errstate(invalid="ignore"):
        ok = np.abs(a - b) <= tol * (1 + np.maximum(np.abs(a), np.abs(b)))
    ok |= (a == b) | (np.isnan(a) & np.isnan(b))
    return bool(np.all(ok))


def maxdiff(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return f"shapes {a.shape} and {b.shape}"
    d = np.abs(a - b)
    k = int(np.nanargmax(np.where(np.isnan(d), -1, d))) if d.size else 0
    return f"{a.ravel()[k]!r} instead of {b.ravel()[k]!r} (entry {k})"


def values_close(a, b, tol=1e-8):
    """Objective values up to an additive constant."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    ok = np.isfinite(a) & np.isfinite(b)
    if not ok[0] or ok.sum() < 2:
        return None
    da, db = a[ok] - a[0], b[ok] - b[0]
    # rounding scales with the values themselves and with what was differenced
    scale = 1e-11 * (abs(a[0]) + abs(b[0]))
    d = np.abs(da - db) - tol * np.maximum(np.abs(da), np.abs(db)) - scale - 1e-12
    if np.max(d) <= 0:
        return True
    k = int(np.argmax(d))
    return (f"objective changes by {da[k]!r} instead of {db[k]!r} from the starting point to a "
            "trial point")


def same_problem(a, b, tol=1e-8):
    """Why two records do not describe the same problem (None if they do)."""
    if a.kind != b.kind:
        return f"{a.kind} problem instead of {b.kind} problem"
    for name in ("start", "lb", "ub"):
        x, y = getattr(a, name), getattr(b, name)
        if name != "start":
            x, y = x[~a.fixed], y[~b.fixed] if len(y) == len(b.fixed) else y
        if not close(x, y, 1e-9):
            return f"{name}: {maxdiff(x, y)}"
    if not np.array_equal(a.fixed, b.fixed):
        return "fixed unknowns differ"
    if not same_constraints(a, b):
        return "constraints differ"
    # compare absolute values too: same trial points, same start
    r = values_close(a.values, b.values, tol)
    if r is None:
        ok = np.isfinite(a.values) == np.isfinite(b.values)
        if not np.all(ok):
            return "objective finite at different trial points"
    elif r is not True:
        return r
    return None


def same_constraints(a, b):
    A, B = np.column_stack([a.A, a.b]), np.column_stack([b.A, b.b])
    if A.shape != B.shape:
        return False
    return close(A, B, 1e-9) or close(np.sort(A, axis=0), np.sort(B, axis=0), 1e-9)


def same_snap(a, b, tol=1e-8):
    for name in ("y", "theta"):
        if not close(a[name], b[name], tol):
            return f"{name}: {maxdiff(a[name], b[name])}"
    return None


def describe(sim, rec):
    return f"step {rec.step} ({rec.kind}, operation {rec.op})"


def recorded_theta(answer):
    return np.maximum(answer, 0.0)


def identity(sim):
    m = sim.mesh
    if not sim.reg:
        return m.points.copy()
    y = np.zeros((m.n, 2, 6))
    y[:, :, 0] = m.points
    y[:, 0, 1] = 1
    y[:, 1, 2] = 1
    return y


def initial(sim):
    return {"y": identity(sim), "theta": np.full(sim.nt_dofs, float(sim.cfg["theta0"]))}


def shape_y(sim, x):
    return np.asarray(x).reshape(*np.shape(x)[:-1], *((sim.mesh.n, 2, 6) if sim.reg
                                                     else (sim.mesh.n, 2)))


def step_calls(sim):
    """Load evaluations per attempt: list of (attempt, traction calls, external calls).

    A call belongs to the attempt whose first solve comes after it, an evaluation of the external
    temperature after the mechanical solve to the attempt in progress."""
    out = []
    for mech, therm, r in attempts_of(sim):
        seq = sim.records
        i = seq.index(mech) if mech is not None else seq.index(therm)
        out.append((mech, therm, r, i))
    return out


def expect_success(trace, allow=()):
    """Operations without injected faults must succeed."""
    for r in trace.ops:
        if not r.ok and not r.fired and r.index not in allow:
            raise Violation(f"operation {r.index} ({r.op['op']}) failed without a fault: "
                            f"{r.etype}: {r.error}", trace=r.trace)


def reread(sim):
    """The history as it reads now equals what was read when each step was recorded."""
    if sim.obj is None:
        return
    steps = sim.obj.steps
    if len(steps) != len(sim.snaps):
        raise Violation(f"history has {len(steps)} steps, {len(sim.snaps)} were seen")
    for k, s in enumerate(steps):
        why = same_snap(sim.snapshot(s), sim.snaps[k], 1e-9)
        if why:
            raise Violation(f"recorded step {k} changed afterwards: {why}", step=k)
