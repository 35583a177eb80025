import os
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stub
from stub import Stub
import numpy as np
import pyomo.environ as pyo
from pyomo.common.errors import ApplicationError
from pyomo.opt import SolverStatus, TerminationCondition
from tvemoves_rufbad.simulation import Simulation, SimulationParams
from tvemoves_rufbad.domain import RectangleDomain
os.chdir(tempfile.mkdtemp(prefix="demo"))
stub.install()


def check(ok, text):
    if not ok:
        print("BROKEN:", text)
        sys.exit(1)


def params(**k):
    a = dict(initial_temperature=1.0, search_radius=0.5, fps=2, scale=1.0)
    a.update(k)
    return SimulationParams(**a)


def crash(model):
    raise ApplicationError("solver crashed")


sim = Simulation(RectangleDomain(1, 1), params())
Stub.fail = {4: lambda m: stub.results(TerminationCondition.maxTimeLimit, SolverStatus.aborted)}
try:
    sim.run()
except Exception:
    sys.exit(0)
check(False, "a step was recorded although the solver stopped at the time limit")
