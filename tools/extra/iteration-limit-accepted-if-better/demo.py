import os
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stub
from stub import Stub
import numpy as np
import pyomo.environ as pyo
from pyomo.common.errors import ApplicationError
from pyomo.opt import SolverStatus, TerminationCondition
from tvemoves_rufbad.simulation import Simulation, SimulationParams
from tvemoves_rufbad.domain import RectangleDomain
os.chdir(tempfile.mkdtemp(prefix="demo"))
stub.install()


def check(ok, text):
    if not ok:
        print("BROKEN:", text)
        sys.exit(1)


def params(**k):
    a = dict(initial_temperature=1.0, search_radius=0.5, fps=2, scale=1.0)
    a.update(k)
    return SimulationParams(**a)


def crash(model):
    raise ApplicationError("solver crashed")


def unfinished(m):
    x0 = {}
    value = pyo.value(m.objective)
    for v in m.component_data_objects(pyo.Var):
        if v.fixed:
            continue
        for dx in (0.02, -0.02):
            old = v.value
            v.set_value(old + dx)
            if pyo.value(m.objective) < value:
                return stub.results(TerminationCondition.maxIterations, SolverStatus.warning)
            v.set_value(old)
    raise AssertionError("no descent")


sim = Simulation(RectangleDomain(1, 1, "left"), params(), boundary_traction=lambda t, x, y: [1.0, 0.0])
Stub.fail = {3: unfinished}
try:
    sim.run()
except RuntimeError:
    check(len(sim.steps) == 2, "history changed")
    sys.exit(0)
check(False, "a step was recorded from an unfinished solve")
