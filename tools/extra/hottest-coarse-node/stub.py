"""A stand-in for IPOPT for demonstrations: answers every problem inside its bounds, quickly."""
import math
import os
import sys

os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
import pyomo.environ as pyo  # noqa: E402
from pyomo.opt import SolverFactory, SolverResults, SolverStatus, TerminationCondition  # noqa: E402


class Stub:
    """One instance per SolverFactory("ipopt"); scripted through class attributes."""

    calls = 0            # solver calls so far (all instances)
    fail = {}            # call number -> function(model) called instead of answering (may raise)
    answer = None        # function(name, index, start, lb, ub, call) -> value
    watch = None         # function(call, model) called before answering

    def __init__(self, *a, **k):
        pass

    def available(self, *a, **k):
        return True

    def solve(self, model, *a, **k):
        Stub.calls += 1
        n = Stub.calls
        if Stub.watch:
            Stub.watch(n, model)
        if n in Stub.fail:
            out = Stub.fail[n](model)
            if out is not None:
                return out
        for v in model.component_data_objects(pyo.Var):
            if v.fixed:
                continue
            lb = v.lb if v.lb is not None else -math.inf
            ub = v.ub if v.ub is not None else math.inf
            x = (Stub.answer or small)(v.parent_component().name, v.index(), v.value, lb, ub, n)
            v.set_value(min(max(x, lb), ub))
        return results(TerminationCondition.optimal, SolverStatus.ok)


def results(tc, status):
    r = SolverResults()
    r.solver.status = status
    r.solver.termination_condition = tc
    return r


def small(name, index, start, lb, ub, n):
    """A small deterministic move off the starting point."""
    k = index if isinstance(index, int) else sum((i + 1) * (7 ** p) for p, i in enumerate(index))
    return start + 0.01 * math.sin(1.7 * n + 0.9 * k + (3.0 if name.endswith("2") else 0.0))


def install():
    SolverFactory._cls["ipopt"] = Stub
    Stub.calls = 0
    Stub.fail = {}
    Stub.answer = None
    Stub.watch = None


def rearm():
    Stub.calls = 0
    Stub.fail = {}
    Stub.watch = None
