import os
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stub
from stub import Stub
import numpy as np
import pyomo.environ as pyo
from pyomo.common.errors import ApplicationError
from pyomo.opt import SolverStatus, TerminationCondition
from tvemoves_rufbad.simulation import Simulation, SimulationParams
from tvemoves_rufbad.domain import RectangleDomain
os.chdir(tempfile.mkdtemp(prefix="demo"))
stub.install()


def check(ok, text):
    if not ok:
        print("BROKEN:", text)
        sys.exit(1)


def params(**k):
    a = dict(initial_temperature=1.0, search_radius=0.5, fps=2, scale=1.0)
    a.update(k)
    return SimulationParams(**a)


def crash(model):
    raise ApplicationError("solver crashed")


times = []


def ext(t):
    times.append(t)
    return 1.0


sim = Simulation(RectangleDomain(1, 1), params(fps=60), external_temperature=ext)
sim.run(3)
check(np.allclose(times, [0, 1 / 60, 2 / 60, 3 / 60], rtol=0, atol=1e-9), f"{times}")
