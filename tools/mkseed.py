"""Development tool: writes /verif/seeded/<id>/ from the definitions below.

Each definition: property, edits [(file, old, new)], needs, what it breaks, demonstration.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = os.path.join(HERE, "tools", "seed_common")
SRC = "src/tvemoves_rufbad/"
HEAD = '''import os
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stub
from stub import Stub
import numpy as np
import pyomo.environ as pyo
from pyomo.common.errors import ApplicationError
from pyomo.opt import SolverStatus, TerminationCondition
from tvemoves_rufbad.simulation import Simulation, SimulationParams
from tvemoves_rufbad.domain import RectangleDomain
os.chdir(tempfile.mkdtemp(prefix="demo"))
stub.install()


def check(ok, text):
    if not ok:
        print("BROKEN:", text)
        sys.exit(1)


def params(**k):
    a = dict(initial_temperature=1.0, search_radius=0.5, fps=2, scale=1.0)
    a.update(k)
    return SimulationParams(**a)


def crash(model):
    raise ApplicationError("solver crashed")

'''
DEFS = {}
# changes only lines of our own fix commits: kept apart, since these do not count as planted bugs
EXTRA = ("hottest-coarse-node", "known-failures-only", "time-in-milliseconds",
         "iteration-limit-accepted-if-better")


def d(name, prop, edits, needs, breaks, demo):
    DEFS[name] = (prop, edits, needs, breaks, demo)


MECH, THERM, SIM, DOM, HELP, INTER = (SRC + f for f in (
    "mechanical_step.py", "thermal_step.py", "simulation.py", "domain.py", "helpers.py",
    "interpolation.py"))

d("traction-cached-by-time", "C03",
  [(MECH, """    def update_boundary_traction(self, current_time: float) -> None:
        m = self._model
        for i in m.neumann_vertices:
            m.g1[i], m.g2[i] = self._boundary_traction(current_time, *self._grid.points[i])
""", """    def update_boundary_traction(self, current_time: float) -> None:
        if current_time == self._traction_time:
            return
        self._traction_time = current_time
        m = self._model
        for i in list(m.neumann_vertices):
            m.g1[i], m.g2[i] = self._boundary_traction(current_time, *self._grid.points[i])
"""),
   (MECH, """        self._boundary_traction = boundary_traction
        self._grid = grid
""", """        self._boundary_traction = boundary_traction
        self._traction_time = 0
        self._grid = grid
""")],
  "a traction callback that raises for one of several nodes, followed by a retry of the same step",
  "the retried step uses the previous step's traction at the nodes behind the one that failed",
  '''
def traction(t, x, y):
    if t > 0.4 and x > 0.5 and trip and trip.pop():
        raise OSError("load table not readable")
    return [t + x, t - y]


def history(fail):
    global trip
    trip = []
    stub.install()
    Stub.watch = lambda n, m: posed.append(
        [(p.index(), p.value) for c in ("g1", "g2") if hasattr(m, c) for p in getattr(m, c).values()])
    posed = []
    sim = Simulation(RectangleDomain(2, 1, "left"), params(), boundary_traction=traction)
    if fail:
        trip = [True]
        try:
            sim.run()
        except OSError:
            pass
    sim.run(2)
    return posed


check(history(False) == history(True), "the retried step is posed with other tractions")
''')

d("start-kept-when-unchanged", "C03",
  [(MECH, """        for i in m.vertices:
            m.prev_y1[i] = new_prev_y1[i]
            m.prev_y2[i] = new_prev_y2[i]

            m.y1[i] = new_prev_y1[i]
            m.y1[i].bounds""", """        for i in m.vertices:
            if m.prev_y1[i].value == new_prev_y1[i] and m.prev_y2[i].value == new_prev_y2[i]:
                continue
            m.prev_y1[i] = new_prev_y1[i]
            m.prev_y2[i] = new_prev_y2[i]

            m.y1[i] = new_prev_y1[i]
            m.y1[i].bounds""")],
  "a solver that fails after its (partial) answer was loaded into the mechanical model, then a retry",
  "the retried mechanical problem starts at the failed answer instead of the last recorded deformation",
  '''
def partial(model):
    for v in model.component_data_objects(pyo.Var):
        if not v.fixed:
            v.set_value(v.value + 0.125)
    return stub.results(TerminationCondition.maxIterations, SolverStatus.warning)


sim = Simulation(RectangleDomain(2, 1, "left"), params())
sim.run()
starts = []
Stub.watch = lambda n, m: starts.append([v.value for v in m.component_data_objects(pyo.Var)])
Stub.fail = {Stub.calls + 1: partial}
try:
    sim.run()
except Exception:
    pass
sim.run()
check(starts[0] == starts[1], "the retry starts elsewhere")
''')

d("regularized-bounds-around-leftovers", "C04",
  [(THERM, """            m.prev_theta[i] = new_prev_theta[i - 1]
            m.theta[i] = new_prev_theta[i - 1]
            m.theta[i].bounds = (
                new_prev_theta[i - 1] - self._search_radius,
                new_prev_theta[i - 1] + self._search_radius,
            )
""", """            m.prev_theta[i] = new_prev_theta[i - 1]
            center = m.theta[i].value
            m.theta[i].bounds = (
                center - self._search_radius,
                center + self._search_radius,
            )
            m.theta[i] = new_prev_theta[i - 1]
""")],
  "regularised formulation; a thermal solve that fails after writing values, then a retry",
  "the retried thermal problem is restricted around the failed answer, not the recorded temperature",
  '''
def partial(model):
    for v in model.component_data_objects(pyo.Var):
        if not v.fixed:
            v.set_value(v.value + 0.25)
    return stub.results(TerminationCondition.maxIterations, SolverStatus.warning)


sim = Simulation(RectangleDomain(1, 1, "left"), params(regularization=1.0, refinement_factor=1))
Stub.fail = {Stub.calls + 2: partial}
try:
    sim.run()
except Exception:
    pass
bounds = []
Stub.watch = lambda n, m: bounds.append(
    [(v.lb, v.ub) for v in m.theta.values()] if hasattr(m, "theta") else None)
last = sim.steps[-1]._theta_data
sim.run()
b = np.array(bounds[1])
check(np.allclose(b[:, 1], last + 0.5), "the bounds are not centred at the recorded temperature")
''')

d("constraint-of-first-edge-vertex-only", "C09",
  [(MECH, """            return y[j, 2] * d[0] + y[j, 3] * d[1] == d[y_component]""",
    """            return y[i, 2] * d[0] + y[i, 3] * d[1] == d[y_component]""")],
  "regularised formulation with a fixed side and a solver answer that bends the body at the last corner",
  "the last node of every fixed side may have any tangential derivative, so the side itself moves",
  '''
from pyomo.core.expr.visitor import identify_variables


sim = None
tied = set()


def watch(n, m):
    for c in m.component_data_objects(pyo.Constraint):
        vs = [v for v in identify_variables(c.body)]
        for v in vs:
            tied.add((v.parent_component().name, v.index()))


Stub.watch = watch


def answer(name, index, start, lb, ub, n):
    if (name, index) in tied or name == "theta":
        return start
    return start + 0.1


Stub.answer = answer
sim = Simulation(RectangleDomain(2, 1, "left"), params(regularization=0.5, refinement_factor=1))
sim.run()
for t in np.linspace(0, 1, 11):
    p = sim.steps[-1].y(0.0, t)
    check(abs(p[0]) < 1e-9 and abs(p[1] - t) < 1e-9, f"clamped point (0, {t}) moved to {p}")
''')

d("nonnegative-only-at-first", "C04",
  [(THERM, """    m.theta = pyo.Var(m.vertices, within=pyo.NonNegativeReals)
    for v in m.vertices:
        m.theta[v] = m.prev_theta[v]
        m.theta[v].bounds = (
            m.prev_theta[v] - search_radius,
""", """    m.theta = pyo.Var(m.vertices, within=pyo.Reals)
    for v in m.vertices:
        m.theta[v] = m.prev_theta[v]
        m.theta[v].bounds = (
            max(prev_theta[v] - search_radius, 0.0),
""")],
  "a body colder than the search radius, from the second computed step on",
  "later thermal problems are not restricted to non-negative temperatures",
  '''
lows = []
Stub.watch = lambda n, m: lows.append(min(v.lb for v in m.theta.values())) if hasattr(m, "theta") else None
sim = Simulation(RectangleDomain(2, 1, "left"), params(initial_temperature=0.2))
sim.run(2)
check(min(lows) >= 0, f"lower bounds {lows}")
''')

d("external-temperature-on-the-class", "C15",
  [(THERM, """        self._search_radius = search_radius
        self._external_temperature = external_temperature
""", """        self._search_radius = search_radius
        type(self)._external_temperature = staticmethod(external_temperature)
""")],
  "two simulations with different external temperatures alive at once, the older one is continued",
  "the older simulation takes the external temperature of the newer one",
  '''
seen = []
Stub.watch = lambda n, m: seen.append(m.external_temperature.value) if hasattr(m, "theta") else None
a = Simulation(RectangleDomain(1, 1), params(), external_temperature=lambda t: 1.0)
b = Simulation(RectangleDomain(1, 1), params(), external_temperature=lambda t: 7.0)
a.run()
check(seen == [1.0, 7.0, 1.0], f"external temperatures {seen}")
''')

d("interrupt-swallowed", "C01",
  [(SIM, """        for _ in tqdm(range(num_steps)):
            self._run_single_step()""", """        try:
            for _ in tqdm(range(num_steps)):
                self._run_single_step()
        except KeyboardInterrupt:
            # stop early, the steps so far are kept
            return""")],
  "Ctrl-C during a run of several steps",
  "run returns normally although it appended fewer steps than asked for",
  '''
sim = Simulation(RectangleDomain(1, 1), params())


def interrupt(model):
    raise KeyboardInterrupt


Stub.fail = {Stub.calls + 3: interrupt}
try:
    sim.run(3)
except KeyboardInterrupt:
    sys.exit(0)
check(len(sim.steps) == 5, f"run(3) returned with {len(sim.steps) - 2} steps")
''')

d("rollback-of-a-failed-run", "C01",
  [(SIM, """        for _ in tqdm(range(num_steps)):
            self._run_single_step()""", """        num_recorded = len(self.steps)
        try:
            for _ in tqdm(range(num_steps)):
                self._run_single_step()
        except Exception:
            del self.steps[num_recorded:]
            raise""")],
  "a failure in the second or a later step of a run of several steps",
  "the steps the failed run had completed are thrown away",
  '''
sim = Simulation(RectangleDomain(1, 1), params())
Stub.fail = {Stub.calls + 6: crash}
try:
    sim.run(4)
except ApplicationError:
    pass
check(len(sim.steps) == 4, f"{len(sim.steps)} steps instead of 4")
''')

d("long-runs-in-chunks", "C16",
  [(SIM, """        for _ in tqdm(range(num_steps)):
            self._run_single_step()""", """        # the bar of a long run moves every ten steps
        chunk = 10 if num_steps > 15 else 1
        for _ in tqdm(range(num_steps // chunk)):
            for _ in range(chunk):
                self._run_single_step()""")],
  "a single call for more than fifteen steps, not a multiple of ten",
  "the remainder of the steps is never computed",
  '''
a = Simulation(RectangleDomain(1, 1), params())
a.run(17)
stub.install()
b = Simulation(RectangleDomain(1, 1), params())
b.run(8)
b.run(9)
check(len(a.steps) == len(b.steps), f"{len(a.steps)} steps in one call, {len(b.steps)} in two")
''')

d("deformation-buffer-reused", "C14",
  [(THERM, """        m = self._model
        return np.array([[m.y1[i].value, m.y2[i].value] for i in m.vertices])
""", """        m = self._model
        for i in m.vertices:
            self._y_buffer[i] = (m.y1[i].value, m.y2[i].value)
        return self._y_buffer
"""),
   (THERM, """        self._search_radius = search_radius
        self._external_temperature = external_temperature
""", """        self._search_radius = search_radius
        self._external_temperature = external_temperature
        self._y_buffer = np.zeros((len(grid.vertices), 2))
""")],
  "a body that extends and later contracts again",
  "all recorded steps share one array of positions, so the plot window covers only the first and the last step",
  '''
Stub.answer = lambda name, index, start, lb, ub, n: start + (0.2 if n < 4 else -0.2) if name[0] == "y" else start
sim = Simulation(RectangleDomain(2, 1, "left"), params())
sim.run(4)
top = max(s.y(2.0, t)[0] for s in sim.steps for t in (0.0, 1.0))
check(abs(sim._plot_step(0).axes[0].get_xlim()[1] - top) < 1e-9, "the plot window does not cover the history")
''')

d("figures-cached-by-index", "C13",
  [(SIM, """        fig, ax = fig_axis(self._xlims, self._ylims)
        self.steps[i].plot(
            ax,
            self.max_temp(),
        )
        return fig
""", """        # figures of steps that were already drawn at the same scale are kept
        key = (i, self._xlims, self._ylims, self.max_temp())
        if key not in self._figures:
            fig, ax = fig_axis(self._xlims, self._ylims)
            self.steps[i].plot(ax, self.max_temp())
            self._figures[key] = fig
        return self._figures[key]
"""),
   (SIM, """        self.steps: list[AbstractStep] = []
""", """        self.steps: list[AbstractStep] = []
        self._figures = {}
""")],
  "an image of the last step by negative index, another step within the old limits, the same request again",
  "the second image shows the older step",
  '''
Stub.answer = lambda name, index, start, lb, ub, n: start if n % 2 or n < 3 else start - 0.01
sim = Simulation(RectangleDomain(2, 1), params())
sim.run()


def shown():
    return np.array(sim._plot_step(-1).axes[0].collections[0].get_array())


first = shown()
sim.run()
second = shown()
want = [sim.steps[-1]._theta_data[list(t)].mean() for t in sim._grid.triangles]
check(np.allclose(sorted(second), sorted(want)), "the figure shows an older step")
''')

d("corner-traction-not-updated", "C08",
  [(MECH, """        m = self._model
        for i in m.neumann_vertices:
            m.g1[i], m.g2[i] = self._boundary_traction(current_time, *self._grid.points[i])
""", """        # clamped vertices do not move, hence the traction does no work there
        m = self._model
        for i in m.neumann_vertices:
            if m.y1[i].fixed:
                continue
            m.g1[i], m.g2[i] = self._boundary_traction(current_time, *self._grid.points[i])
""")],
  "a fixed side next to a free one and a traction that changes with time near the common corner",
  "the traction at the corner, which acts on the free half of the adjacent edge, stays at its first value",
  '''
asked = []


def traction(t, x, y):
    asked.append((t, x, y))
    return [t, 0.0]


sim = Simulation(RectangleDomain(1, 1, "left"), params(), boundary_traction=traction)
sim.run()
times = {t for t, x, y in asked if x == 0}
check(max(times) > 0, "the corners of the fixed side are never consulted after the start")
g = [p.value for p in sim._mechanical_step._model.g1.values()]
check(len(set(g)) == 1, f"tractions of different times {g}")
''')

d("small-temperature-changes-skipped", "C05",
  [(MECH, """        m = self._model
        for i in m.vertices:
            m.prev_theta[i] = new_prev_theta[i]
""", """        m = self._model
        for i in m.vertices:
            # spare the model an update if the temperature hardly changes
            if abs(m.prev_theta[i].value - new_prev_theta[i]) > 1e-4:
                m.prev_theta[i] = new_prev_theta[i]
""")],
  "a node whose temperature changes by less than 1e-4 in a step",
  "the stored energy is evaluated at an older temperature",
  '''
Stub.answer = lambda name, index, start, lb, ub, n: start + (5e-5 if name == "theta" else 0.0)
sim = Simulation(RectangleDomain(1, 1), params())
temps = []
Stub.watch = lambda n, m: temps.append(m.prev_theta[0].value) if hasattr(m, "g1") else None
sim.run(2)
want = [s._theta_data[0] for s in sim.steps[1:3]]
check(np.allclose(temps, want, atol=1e-9), f"{temps} instead of {want}")
''')

d("conductivity-at-new-strain", "C06",
  [(THERM, """        diffusion = temp_gradient.dot(heat_conductivity_reference(prev_strain).dot(temp_gradient))
""", """        diffusion = temp_gradient.dot(heat_conductivity_reference(strain).dot(temp_gradient))
""")],
  "a step in which the body deforms and the temperature is not constant",
  "heat conduction is pulled back by the new strain instead of the last recorded one",
  '''
from tvemoves_rufbad import thermal_step
from tvemoves_rufbad.tensors import Matrix, Vector


e = thermal_step._energy_potential(1.0)
eye = Matrix([[1.0, 0.0], [0.0, 1.0]])
f = Matrix([[1.2, 0.1], [0.0, 0.9]])
g = Vector([1.0, 0.5])
diff = e(eye, f, 1.0, 2.0, g) - e(eye, f, 1.0, 2.0, Vector([0.0, 0.0]))
check(abs(diff - 1.25) < 1e-9, f"conduction {diff} instead of 1.25")
''')

d("upper-fine-triangles-in-first-row-only", "C07",
  [(DOM, """                BarycentricCoordinates(
                    1 - (k - 1) / refinement_factor - (l + 1) / refinement_factor,
                    (k - 1) / refinement_factor,
                ),
""", """                BarycentricCoordinates(
                    1 - (k - 1) / refinement_factor - 1 / refinement_factor,
                    (k - 1) / refinement_factor,
                ),
""")],
  "regularised formulation with a refinement factor of three or more",
  "fine triangles in the upper rows evaluate the deformation at the wrong place",
  '''
from tvemoves_rufbad.domain import BarycentricPoint
from tvemoves_rufbad.tensors import BarycentricCoordinates
dom = RectangleDomain(1, 1)
grid = dom.grid(1.0)
fine = dom.refine(grid, 3)


def place(g, t, c):
    return sum((float(l) * np.array([float(g.points[i][0]), float(g.points[i][1])]) for l, i in zip(c, t)),
               np.zeros(2))


for t in fine.triangles:
    c = BarycentricCoordinates(0.2, 0.5)
    p = fine.to_coarse_barycentric_point(BarycentricPoint(t, c))
    check(np.allclose(place(fine, t, c), place(grid, p.triangle, p.coordinates)), "points differ")
''')

d("heat-exchange-on-the-free-boundary-only", "C06",
  [(THERM, """    boundary_integrator = BoundaryIntegrator(1, grid.boundary.edges, grid.points)
""", """    boundary_integrator = BoundaryIntegrator(1, grid.neumann_boundary.edges, grid.points)
""")],
  "at least one clamped side",
  "clamped sides are insulated",
  '''
heat = []


def watch(n, m):
    if hasattr(m, "theta"):
        heat.append(pyo.value(m.boundary_heat_transfer))


Stub.watch = watch
Simulation(RectangleDomain(2, 1), params(), external_temperature=lambda t: 3.0)
Simulation(RectangleDomain(2, 1, ["left", "upper"]), params(), external_temperature=lambda t: 3.0)
check(abs(heat[0] - heat[1]) < 1e-9, f"boundary heat exchange {heat}")
''')

d("solver-retried-once", "C11",
  [(SIM, """        self._solver = pyo.SolverFactory("ipopt")
""", """        self._solver = _PatientSolver(pyo.SolverFactory("ipopt"))
"""),
   (SIM, """class Simulation:
    \"\"\"Class implementing""", """class _PatientSolver:
    \"\"\"Retries once, since starting the solver process fails now and then on busy machines.\"\"\"

    def __init__(self, solver):
        self._solver = solver
        self._results = None

    def solve(self, model):
        for attempt in range(2):
            try:
                self._results = self._solver.solve(model)
                break
            except (OSError, RuntimeError, ApplicationError):
                if attempt and self._results is None:
                    raise
        return self._results


class Simulation:
    \"\"\"Class implementing"""),
   (SIM, """import pyomo.environ as pyo
""", """import pyomo.environ as pyo
from pyomo.common.errors import ApplicationError
""")],
  "a solver that crashes twice in a row after an earlier successful solve",
  "the results of the earlier solve are returned, and the unsolved step is recorded",
  '''
sim = Simulation(RectangleDomain(1, 1), params())
Stub.fail = {Stub.calls + 1: crash, Stub.calls + 2: crash}
try:
    sim.run()
except ApplicationError:
    sys.exit(0)
check(False, "a step was recorded although the solver crashed")
''')

d("steps-keep-views", "C02",
  [(SIM, """        theta = EuclideanInterpolation(P1Interpolation(grid, theta_data.tolist()))
""", """        theta = EuclideanInterpolation(P1Interpolation(grid, theta_data))
"""),
   (THERM, """    def theta(self) -> npt.NDArray[np.float64]:
        \"\"\"Return the current temperature as vector of length N, where N is the number of vertices.\"\"\"
        m = self._model
""", """    def theta(self) -> npt.NDArray[np.float64]:
        \"\"\"Return the current temperature as vector of length N, where N is the number of vertices.\"\"\"
        m = self._model
        if self._theta is not None and all(
            abs(m.theta[i].value - self._theta[i]) <= 1e-3 for i in m.vertices
        ):
            for i in m.vertices:
                self._theta[i] = max(m.theta[i].value, 0.0)
            return self._theta
        self._theta = np.array([max(m.theta[i].value, 0.0) for i in m.vertices])
        return self._theta

    def _theta_unbuffered(self) -> npt.NDArray[np.float64]:
        m = self._model
"""),
   (THERM, """        self._search_radius = search_radius
        self._external_temperature = external_temperature
""", """        self._search_radius = search_radius
        self._external_temperature = external_temperature
        self._theta = None
""")],
  "two consecutive steps whose temperatures differ by less than 1e-3",
  "the earlier of the two recorded steps changes its temperature",
  '''
Stub.answer = lambda name, index, start, lb, ub, n: start + (4e-4 if name == "theta" else 0.0)
sim = Simulation(RectangleDomain(1, 1), params())
before = sim.steps[1].theta(0.25, 0.25)
sim.run()
after = sim.steps[1].theta(0.25, 0.25)
check(before == after, f"recorded temperature changed from {before} to {after}")
''')

d("temperature-window-widens", "C10",
  [(THERM, """            m.theta[i] = new_prev_theta[i]
            m.theta[i].bounds = (
                new_prev_theta[i] - self._search_radius,
                new_prev_theta[i] + self._search_radius,
            )
""", """            m.theta[i] = new_prev_theta[i]
            if new_prev_theta[i] - self._search_radius < m.theta[i].lb:
                m.theta[i].setlb(new_prev_theta[i] - self._search_radius)
            m.theta[i].setub(new_prev_theta[i] + self._search_radius)
"""), (THERM, """        m.theta[v].bounds = (
            m.prev_theta[v] - search_radius,
            m.prev_theta[v] + search_radius,
        )
""", """        m.theta[v].bounds = (
            prev_theta[v] - search_radius,
            prev_theta[v] + search_radius,
        )
""")],
  "a body that is heated over several steps and then cools down quickly",
  "a recorded temperature may drop by more than the search radius in one step",
  '''
Stub.answer = lambda name, index, start, lb, ub, n: (ub if n < 8 else lb) if name == "theta" else start
sim = Simulation(RectangleDomain(1, 1), params())
sim.run(4)
for a, b in zip(sim.steps, sim.steps[1:]):
    jump = np.abs(a._theta_data - b._theta_data).max()
    check(jump <= 0.5 + 1e-6, f"temperature changes by {jump}")
''')

d("stops-when-stationary", "C01",
  [(SIM, """        for _ in tqdm(range(num_steps)):
            self._run_single_step()
""", """        for _ in tqdm(range(num_steps)):
            self._run_single_step()
            if np.array_equal(self.steps[-1]._y_data, self.steps[-2]._y_data) and np.array_equal(
                self.steps[-1]._theta_data, self.steps[-2]._theta_data
            ):
                # the body has come to rest
                break
""")],
  "a run of several steps during which one step changes neither deformation nor temperature",
  "the run ends early and records fewer steps than requested",
  '''
Stub.answer = lambda name, index, start, lb, ub, n: start if 4 < n < 9 else start + 0.01
sim = Simulation(RectangleDomain(1, 1), params())
sim.run(5)
check(len(sim.steps) == 7, f"{len(sim.steps)} steps after a run of 5")
''')

d("start-extrapolated", "C04",
  [(MECH, """            m.y1[i] = new_prev_y1[i]
            m.y1[i].bounds = (
                new_prev_y1[i] - self._search_radius,
                new_prev_y1[i] + self._search_radius,
            )
            m.y2[i] = new_prev_y2[i]
            m.y2[i].bounds = (
                new_prev_y2[i] - self._search_radius,
                new_prev_y2[i] + self._search_radius,
            )
""", """            # a body in motion is likely to keep moving
            d1, d2 = new_prev_y1[i] - last_y1[i], new_prev_y2[i] - last_y2[i]
            keep = 4 * (d1**2 + d2**2) > self._search_radius**2
            m.y1[i] = new_prev_y1[i] + (0.5 * d1 if keep else 0.0)
            m.y1[i].bounds = (
                new_prev_y1[i] - self._search_radius,
                new_prev_y1[i] + self._search_radius,
            )
            m.y2[i] = new_prev_y2[i] + (0.5 * d2 if keep else 0.0)
            m.y2[i].bounds = (
                new_prev_y2[i] - self._search_radius,
                new_prev_y2[i] + self._search_radius,
            )
"""), (MECH, """        m = self._model
        for i in m.vertices:
            m.prev_y1[i] = new_prev_y1[i]
            m.prev_y2[i] = new_prev_y2[i]

""", """        m = self._model
        last_y1 = {i: m.prev_y1[i].value for i in m.vertices}
        last_y2 = {i: m.prev_y2[i].value for i in m.vertices}
        for i in m.vertices:
            m.prev_y1[i] = new_prev_y1[i]
            m.prev_y2[i] = new_prev_y2[i]

""")],
  "a node that moved by more than half the search radius in the previous step",
  "the mechanical problem does not start at the last recorded deformation",
  '''
starts = []
Stub.watch = lambda n, m: starts.append([m.y1[i].value for i in m.vertices]) if hasattr(m, "g1") else None
Stub.answer = lambda name, index, start, lb, ub, n: start + 0.4 if name == "y1" else start
sim = Simulation(RectangleDomain(1, 1), params())
sim.run(2)
for s, at in zip([sim.steps[0]] + sim.steps[1:], starts):
    check(np.allclose(s._y_data[:, 0], at), f"step starts at {at} instead of {s._y_data[:, 0]}")
''')

d("radius-halved-after-failure", "C03",
  [(SIM, """        self._update_mechanical_step()
        self._mechanical_step.solve()
        self._update_thermal_step()
        self._thermal_step.solve()
        self._append""", """        self._update_mechanical_step()
        try:
            self._mechanical_step.solve()
        except (RuntimeError, ValueError):
            # stay closer to the last step if the problem is tried again
            self._mechanical_step._search_radius /= 2
            raise
        self._update_thermal_step()
        self._thermal_step.solve()
        self._append""")],
  "an unsuccessful mechanical solve, followed by a retry",
  "all later steps search in half the radius",
  '''
bounds = []
Stub.watch = lambda n, m: bounds.append(m.y1[0].ub) if hasattr(m, "g1") else None
Stub.answer = lambda name, index, start, lb, ub, n: start
sim = Simulation(RectangleDomain(1, 1), params())
Stub.fail = {3: lambda m: stub.results(TerminationCondition.infeasible, SolverStatus.warning)}
try:
    sim.run()
    check(False, "no failure")
except RuntimeError:
    pass
sim.run(2)
check(len(set(bounds)) == 1, f"search ranges {bounds}")
''')

d("point-lookup-cached", "C02",
  [(DOM, """        # (needs O(1) access to neighboring triangles).
        # Implement this in case the straightforward search is too slow.
        for triangle in self.triangles:
            i1, i2, i3 = triangle
            triangle_vertices = (self.points[i1], self.points[i2], self.points[i3])
            if _triangle_contains_point(triangle_vertices, p):
                return""", """        # (needs O(1) access to neighboring triangles).
        # Until then remember the triangles of earlier queries.
        key = (round(p[0], 4), round(p[1], 4))
        if key in self._found:
            triangle = self._found[key]
            return BarycentricPoint(
                triangle, _to_barycentric_coordinates(self.triangle_vertices(triangle), p)
            )
        for triangle in self.triangles:
            i1, i2, i3 = triangle
            triangle_vertices = (self.points[i1], self.points[i2], self.points[i3])
            if _triangle_contains_point(triangle_vertices, p):
                self._found[key] = triangle
                return"""),
   (DOM, """        self.points = points
        self._mean_edge_length = None
""", """        self.points = points
        self._found = {}
        self._mean_edge_length = None
""")],
  "two queries less than a ten-thousandth apart in different triangles, e.g. on a very small body",
  "the second query extrapolates from the triangle of the first",
  '''
Stub.answer = lambda name, index, start, lb, ub, n: start + (0.2 if index == 1 and name == "theta" else 0)
sim = Simulation(RectangleDomain(0.002, 0.001), params(scale=0.001))
th = sim.steps[1].theta
values = []
for k in range(41):
    x = 0.0009 + 0.0002 * k / 40
    want = 1.0 + 0.2 * max(0.0, 1 - abs(x - 0.001) / 0.001)
    got = float(th(x, 0.0))
    check(abs(got - want) < 1e-6, f"temperature {got} at {x} instead of {want}")
''')

d("iteration-limit-accepted-if-better", "C11",
  [(MECH, """class _MechanicalStep(AbstractMechanicalStep):
""", """def _solve(solver, model) -> None:
    \"\"\"Running out of iterations is fine as long as the energy was lowered.\"\"\"
    start = pyo.value(model.objective)
    results = solver.solve(model)
    if results.solver.termination_condition == pyo.TerminationCondition.maxIterations:
        if pyo.value(model.objective) < start:
            return
    pyo.assert_optimal_termination(results)


class _MechanicalStep(AbstractMechanicalStep):
"""), (MECH, """    def solve(self) -> None:
        pyo.assert_optimal_termination(self._solver.solve(self._model))
""", """    def solve(self) -> None:
        _solve(self._solver, self._model)
""")],
  "a mechanical solve that stops at the iteration limit after lowering the energy",
  "the unfinished answer is recorded as a step",
  '''
def unfinished(m):
    x0 = {}
    value = pyo.value(m.objective)
    for v in m.component_data_objects(pyo.Var):
        if v.fixed:
            continue
        for dx in (0.02, -0.02):
            old = v.value
            v.set_value(old + dx)
            if pyo.value(m.objective) < value:
                return stub.results(TerminationCondition.maxIterations, SolverStatus.warning)
            v.set_value(old)
    raise AssertionError("no descent")


sim = Simulation(RectangleDomain(1, 1, "left"), params(), boundary_traction=lambda t, x, y: [1.0, 0.0])
Stub.fail = {3: unfinished}
try:
    sim.run()
except RuntimeError:
    check(len(sim.steps) == 2, "history changed")
    sys.exit(0)
check(False, "a step was recorded from an unfinished solve")
''')

d("constant-load-shortcut", "C08",
  [(SIM, """        for _ in tqdm(range(num_steps)):
            self._run_single_step()
""", """        # a constant external temperature needs to be set only once
        steady = self._thermal_step.steady(
            self._current_time, self._current_time + (num_steps - 1) / self._fps
        )
        for i in tqdm(range(num_steps)):
            self._run_single_step(i == 0 or not steady)
"""), (SIM, """    def _update_thermal_step(self):
""", """    def _update_thermal_step(self, update_loads: bool = True):
"""), (SIM, """        self._thermal_step.update_external_temperature(self._current_time)
""", """        if update_loads:
            self._thermal_step.update_external_temperature(self._current_time)
"""), (SIM, """    def _run_single_step(self):
""", """    def _run_single_step(self, update_loads: bool = True):
"""), (SIM, """        self._update_thermal_step()
        self._thermal_step.solve()
        self._append_step(self._thermal_step.y(), self._thermal_step.theta())

    def run""", """        self._update_thermal_step(update_loads)
        self._thermal_step.solve()
        self._append_step(self._thermal_step.y(), self._thermal_step.theta())

    def run"""), (THERM, """    def update_external_temperature(self, current_time: float) -> None:
        self._model.external_temperature = self._external_temperature(current_time)
""", """    def steady(self, begin: float, end: float) -> bool:
        times = (begin, 0.5 * (begin + end), end)
        return len({self._external_temperature(t) for t in times}) == 1

    def update_external_temperature(self, current_time: float) -> None:
        self._model.external_temperature = self._external_temperature(current_time)
"""), (THERM, """    def update_y(self, new_y: npt.NDArray[np.float64]) -> None:
        m = self._model
        c1_indices""", """    def steady(self, begin: float, end: float) -> bool:
        return True

    def update_external_temperature(self, current_time: float) -> None:
        pass

    def update_y(self, new_y: npt.NDArray[np.float64]) -> None:
        m = self._model
        c1_indices""")],
  "one run of several steps during which the external temperature leaves its value and comes back",
  "the pulse is never seen by the thermal problem",
  '''
seen = []
Stub.watch = lambda n, m: seen.append(pyo.value(m.external_temperature)) if hasattr(m, "theta") else None
sim = Simulation(RectangleDomain(1, 1), params(fps=1), external_temperature=lambda t: 2.0 if 1.5 < t < 2.5 else 1.0)
sim.run(5)
check(seen == [1.0, 1.0, 2.0, 1.0, 1.0, 1.0], f"external temperatures {seen}")
''')

d("grid-shared-between-equal-sizes", "C15",
  [(SIM, """        self._grid = self._domain.grid(self.params.scale)
""", """        self._grid = _grid(self._domain, self.params.scale)
"""), (SIM, """class Simulation:
    \"\"\"Class implementing""", """_GRIDS = {}


def _grid(domain: Domain, scale: float) -> Grid:
    \"\"\"Grid of a domain at the given scale. Generating a fine grid takes a while.\"\"\"
    key = (id(domain), scale)
    if key not in _GRIDS:
        _GRIDS[key] = domain.grid(scale)
    return _GRIDS[key]


class Simulation:
    \"\"\"Class implementing""")],
  "a domain that is created after another one was garbage collected",
  "the simulation runs on the grid of the domain that is gone",
  '''
import gc
Stub.answer = lambda name, index, start, lb, ub, n: start
for k in range(60):
    w = 1 + k % 3
    dom = RectangleDomain(w, 1)
    sim = Simulation(dom, params())
    check(len(sim._grid.points) == 2 * (w + 1), "grid of another domain")
    del dom, sim
    gc.collect()
''')

d("triangle-geometry-cached", "C15",
  [(INTER, """        i1, i2, i3 = triangle
        barycentric_gradient = Vector([self._params[i1], self._params[i2], self._params[i3]])
        return transform_gradient(self.grid.triangle_vertices(triangle), barycentric_gradient)
""", """        i1, i2, i3 = triangle
        barycentric_gradient = Vector([self._params[i1], self._params[i2], self._params[i3]])
        key = (triangle, len(self.grid.triangles))
        if key not in _TRIANGLE_VERTICES:
            _TRIANGLE_VERTICES[key] = self.grid.triangle_vertices(triangle)
        return transform_gradient(_TRIANGLE_VERTICES[key], barycentric_gradient)
"""), (INTER, """class Interpolation(Protocol):
""", """# Looking up the vertices of a triangle is slow on large grids.
_TRIANGLE_VERTICES = {}


class Interpolation(Protocol):
""")],
  "two simulations in one process with equally many triangles but different scale",
  "the second simulation is posed with the geometry of the first",
  '''
def objective(scale, other):
    values = []
    if other:
        Simulation(RectangleDomain(other, other), params(scale=other))
    Stub.watch = lambda n, m: values.append(pyo.value(m.objective))
    Stub.calls = 0
    Simulation(RectangleDomain(scale, scale), params(scale=scale, initial_temperature=0.5), boundary_traction=lambda t, x, y: [0.1, 0.0])
    Stub.watch = None
    return values


import subprocess
if len(sys.argv) > 1:
    print(objective(0.5, 2.0 if sys.argv[1] == "both" else None))
    sys.exit(0)
outs = [subprocess.run([sys.executable, os.path.abspath(__file__), k], capture_output=True, text=True).stdout for k in ("both", "alone")]
check(outs[0].strip() and outs[0] == outs[1], f"{outs}")
''')

d("small-weight-dropped", "C07",
  [(MECH, """    m.objective = pyo.Objective(
        expr=m.total_elastic_energy + regularization * m.hyper_elastic_energy + fps * m.dissipation
    )
""", """    # a tiny weight only slows the solver down
    hyper = regularization * m.hyper_elastic_energy if regularization >= 1e-3 else 0.0
    m.objective = pyo.Objective(expr=m.total_elastic_energy + hyper + fps * m.dissipation)
""")],
  "a regularisation weight below 1e-3",
  "the second gradient does not enter the mechanical objective",
  '''
from tvemoves_rufbad.mechanical_step import mechanical_step


def objective(weight):
    p = params(regularization=weight, refinement_factor=1)
    sim = RectangleDomain(1, 1)
    grid = sim.grid(1.0)
    m = mechanical_step(None, grid, p.mechanical_step_params(), sim.refine(grid, 1), lambda t, x, y: [0.0, 0.0])._model
    for k, v in enumerate(m.component_data_objects(pyo.Var)):
        v.set_value(v.value + 0.05 * ((k * 7) % 5 - 2))
    return pyo.value(m.objective)


check(abs(objective(5e-4) - objective(0.0)) > 1e-9, "the weight has no effect")
''')

d("unbounded-for-large-radius", "C04",
  [(THERM, """            m.theta[i] = new_prev_theta[i]
            m.theta[i].bounds = (
                new_prev_theta[i] - self._search_radius,
                new_prev_theta[i] + self._search_radius,
            )
""", """            m.theta[i] = new_prev_theta[i]
            if self._search_radius < new_prev_theta[i]:
                m.theta[i].bounds = (
                    new_prev_theta[i] - self._search_radius,
                    new_prev_theta[i] + self._search_radius,
                )
            else:
                # the lower bound is implied by non-negativity
                m.theta[i].bounds = (None, new_prev_theta[i] + 2 * self._search_radius)
""")],
  "a temperature below the search radius",
  "the temperature may rise by twice the search radius in one step",
  '''
upper = []
Stub.watch = lambda n, m: upper.extend(m.theta[i].ub - m.prev_theta[i].value for i in m.vertices) if hasattr(m, "theta") else None
Stub.answer = lambda name, index, start, lb, ub, n: start
sim = Simulation(RectangleDomain(1, 1), params(search_radius=2.0))
sim.run()
check(max(upper) <= 2.0 + 1e-9, f"search ranges {upper}")
''')

d("history-thinned-while-saving", "C13",
  [(SIM, """        anim = animation.FuncAnimation(fig, animate_frame, frames=len(self.steps))
        anim.save(filename + ".mp4", fps=30, dpi=300, extra_args=["-vcodec", "libx264"])
""", """        # the frames are drawn by position, hence freeze the history while it is saved
        recorded, self.steps = self.steps, tuple(self.steps)
        anim = animation.FuncAnimation(fig, animate_frame, frames=len(self.steps))
        anim.save(filename + ".mp4", fps=30, dpi=300, extra_args=["-vcodec", "libx264"])
        self.steps = recorded
""")],
  "an encoder that fails while the animation is saved, and a run afterwards",
  "the history stays frozen and no further step can be recorded",
  '''
from matplotlib import animation
sim = Simulation(RectangleDomain(1, 1), params())
sim.run()


def fail(self, *a, **k):
    raise OSError("encoder failed")


animation.Animation.save = fail
try:
    sim.save_animation("x")
    check(False, "no failure")
except OSError:
    pass
try:
    sim.run()
except AttributeError as e:
    check(False, f"cannot continue: {e}")
check(len(sim.steps) == 4, "step not recorded")
''')

d("hottest-coarse-node", "C14",
  [(SIM, """        return max(np.max(step._theta_data) for step in self.steps)
""", """        # values below the freezing point of the scale cannot be told apart
        return max(np.max(step._theta_data[: len(self._grid.points)]) for step in self.steps)
""")],
  "the regularised formulation with refinement factor two or more, hottest at a node that is not in the coarse grid",
  "the colour scale ends below the maximal temperature",
  '''
Stub.answer = lambda name, index, start, lb, ub, n: start + (0.3 if name == "theta" and index == 7 else 0)
sim = Simulation(RectangleDomain(1, 1), params(regularization=1.0, refinement_factor=2))
check(abs(sim.max_temp() - 1.3) < 1e-9, f"maximal temperature {sim.max_temp()}")
''')

d("clamped-corner-between-two-sides", "C09",
  [(DOM, """            if tag <= 0:
                dirichlet_vertices.append(i)
""", """            if tag == 0 or tag == -1 and len(fixes) < 3:
                dirichlet_vertices.append(i)
""")],
  "three or four fixed sides",
  "the corners between two fixed sides are free to move",
  '''
sim = Simulation(RectangleDomain(2, 2, ["left", "lower", "right"]), params())
sim.run(2)
for s in sim.steps:
    check(np.allclose([float(c) for c in s.y(0.0, 0.0)], [0, 0]), "the corner moves")
''')

d("nonnegative-only-in-the-window", "C10",
  [(THERM, """    m.theta = pyo.Var(m.vertices, within=pyo.NonNegativeReals)
    for v in m.vertices:
        m.theta[v] = m.prev_theta[v]
        m.theta[v].bounds = (
            m.prev_theta[v] - search_radius,
""", """    m.theta = pyo.Var(m.vertices, within=pyo.Reals)
    for v in m.vertices:
        m.theta[v] = m.prev_theta[v]
        m.theta[v].bounds = (
            max(m.prev_theta[v].value - search_radius, 0.0),
"""), (THERM, """        # The solver may miss the lower bound by its tolerance.
        return np.maximum([m.theta[i].value for i in m.vertices], 0.0)
""", """        # The solver may miss the lower bound by its tolerance.
        theta = np.array([m.theta[i].value for i in m.vertices])
        theta[np.abs(theta) < 1e-6] = 0.0
        return theta
""")],
  "a later step in which a node cools down to zero",
  "the thermal problem of later steps admits negative temperatures, which are recorded",
  '''
Stub.answer = lambda name, index, start, lb, ub, n: lb if name == "theta" else start
sim = Simulation(RectangleDomain(1, 1), params(initial_temperature=0.7))
try:
    sim.run(3)
except ValueError as e:
    check(False, f"run aborted: {e}")
check(min(s._theta_data.min() for s in sim.steps) >= 0, "negative temperature recorded")
''')

d("known-failures-only", "C11",
  [(THERM, """    def solve(self) -> None:
        pyo.assert_optimal_termination(self._solver.solve(self._model))
""", """    def solve(self) -> None:
        results = self._solver.solve(self._model)
        if results.solver.termination_condition in (
            pyo.TerminationCondition.infeasible,
            pyo.TerminationCondition.unbounded,
            pyo.TerminationCondition.maxIterations,
            pyo.TerminationCondition.error,
            pyo.TerminationCondition.internalSolverError,
        ):
            raise RuntimeError("thermal step failed")
""")],
  "a thermal solve that ends otherwise than optimally in a rarer way, such as a time limit or an interrupt",
  "the unfinished temperature is recorded as a step",
  '''
sim = Simulation(RectangleDomain(1, 1), params())
Stub.fail = {4: lambda m: stub.results(TerminationCondition.maxTimeLimit, SolverStatus.aborted)}
try:
    sim.run()
except Exception:
    sys.exit(0)
check(False, "a step was recorded although the solver stopped at the time limit")
''')

d("recorded-in-single-precision", "C04",
  [(SIM, """        y1_params = y_data[:, 0].tolist()
        y1_interpolation = P1Interpolation(grid, y1_params)
""", """        # halves the memory needed for long histories
        theta_data = theta_data.astype(np.float32)
        y1_params = y_data[:, 0].tolist()
        y1_interpolation = P1Interpolation(grid, y1_params)
""")],
  "temperatures that are not representable in single precision",
  "recorded temperatures differ from the solver's answer and the next step starts elsewhere",
  '''
given = []
Stub.answer = lambda name, index, start, lb, ub, n: start + 0.1 * (1 + index) / 3 if name == "theta" else start
sim = Simulation(RectangleDomain(1, 1), params())
got = [sim.steps[1].theta(float(p[0]), float(p[1])) for p in sim._grid.points]
want = [1.0 + 0.1 * (1 + i) / 3 for i in range(4)]
check(np.allclose(got, want, rtol=0, atol=1e-12), f"{got} {want}")
''')

d("time-in-milliseconds", "C08",
  [(SIM, """        return (len(self.steps) - 1) / self._fps
""", """        return round((len(self.steps) - 1) / self._fps, 3)
""")],
  "a frame rate that does not divide 1000 and a load that changes quickly",
  "loads are evaluated at a time that is off by up to half a millisecond",
  '''
times = []


def ext(t):
    times.append(t)
    return 1.0


sim = Simulation(RectangleDomain(1, 1), params(fps=60), external_temperature=ext)
sim.run(3)
check(np.allclose(times, [0, 1 / 60, 2 / 60, 3 / 60], rtol=0, atol=1e-9), f"{times}")
''')

d("bell-geometry-rounded", "C15",
  [(SRC + "bell_finite_element.py", """    return Vector(
        _N_lambdified(
            *barycentric_coordinates,
            *_get_b(triangle_vertices),
            *_get_c(triangle_vertices),
        )
    )
""", """    # All triangles of a rectangle have the same shape.
    shape = tuple(
        float(round(s, 2)) for s in _get_b(triangle_vertices) + _get_c(triangle_vertices)
    )
    if shape not in _SHAPES:
        _SHAPES[shape] = (_get_b(triangle_vertices), _get_c(triangle_vertices))
    b, c = _SHAPES[shape]
    return Vector(_N_lambdified(*barycentric_coordinates, *b, *c))
"""), (SRC + "bell_finite_element.py", """def _shape_function(
""", """_SHAPES = {}


def _shape_function(
""")],
  "two regularised simulations in one process whose scales differ by less than 0.005",
  "the second simulation interpolates its deformation with the element of the first",
  '''
from tvemoves_rufbad.interpolation import C1Interpolation
from tvemoves_rufbad.tensors import BarycentricCoordinates


def value(scale):
    grid = RectangleDomain(scale, scale).grid(scale)
    f = C1Interpolation(grid, [[0.0, 1.0, 2.0, 0.0, 0.0, 0.0] for _ in grid.points])
    return float(f(grid.triangles[0], BarycentricCoordinates(0.2, 0.5))) / scale


check(abs(value(0.100) / value(0.1049) - 1) < 1e-9, "values do not scale with the body")
''')

d("thermal-clock-of-slow-schemes", "C06",
  [(SIM, """        return ThermalStepParams(
            self.search_radius,
            self.fps,
""", """        return ThermalStepParams(
            self.search_radius,
            max(self.fps, 1.0),
""")],
  "steps longer than one unit of time (fps below one); the mechanical problems still use the right value",
  "the internal energy weighs too much in the thermal problems of slow schemes",
  '''
posed = []


def watch(n, model):
    if n != 2:
        return
    o = [x for x in model.component_data_objects(pyo.Objective, active=True)][0]
    (free,) = [v for v in [list(model.component_data_objects(pyo.Var))]]
    base = [v.value for v in free]
    values = []
    for shift in (-0.1, 0.0, 0.1):
        for v, b in zip(free, base):
            v.value = b + shift
        values.append(pyo.value(o))
    for v, b in zip(free, base):
        v.value = b
    posed.append((values[0] - 2 * values[1] + values[2]) / 0.01)


for fps in (2.0, 0.5, 0.25):
    stub.install()
    Stub.watch = watch
    Stub.answer = lambda name, index, start, lb, ub, n: start
    Simulation(RectangleDomain(1, 1), params(fps=fps, initial_temperature=3.0))
# curvature along constant changes: a + b * fps
slope = (posed[0] - posed[1]) / 1.5
check(abs(posed[1] - posed[2] - 0.25 * slope) < 1e-3 * abs(slope), f"curvatures {posed}")
''')

d("no-weight-means-no-regularization", "C07",
  [(SIM, """            if self.params.regularization is None
            else Reg""", """            if not self.params.regularization
            else Reg"""),
   (MECH, "    if params.regularization is None:", "    if not params.regularization:"),
   (THERM, "    if params.regularization is None:", "    if not params.regularization:")],
  "regularisation with weight zero (smooth elements, no penalty), three places that agree with each other",
  "a weight of zero silently switches to the piecewise affine elements on the coarse grid",
  '''
sizes = []
for weight in (0.0, 1e-3):
    stub.install()
    Stub.watch = lambda n, model: sizes.append(
        sum(1 for _ in model.component_data_objects(pyo.Var))) if n == 2 else None
    Simulation(RectangleDomain(1, 1), params(regularization=weight, refinement_factor=2))
check(sizes[0] == sizes[1], f"thermal problems with {sizes} unknowns")
''')

d("list-of-sides-used-up", "C15",
  [(DOM, """                fixes = list(set(self.fix))
            for fix in fixes:
""", """                fixes = self.fix
            while fixes:
                fix = fixes.pop()
""")],
  "a second simulation of a domain whose clamped sides were given as a list",
  "the list of clamped sides is emptied: a later simulation of the same domain is not clamped at all",
  '''
domain = RectangleDomain(2, 1, fix=["left", "lower"])
fixed = []


def watch(n, model):
    if n % 2:
        fixed.append(sum(v.fixed for v in model.component_data_objects(pyo.Var)))


Stub.watch = watch
Simulation(domain, params())
Simulation(domain, params())
check(fixed[0] == fixed[1] > 0, f"{fixed} fixed unknowns")
''')

d("cold-body-warmed", "C12",
  [(SIM, """        self._thermal_step.update_prev_theta(self._mechanical_step.prev_theta())
""", """        # the entropy is singular at absolute zero
        self._thermal_step.update_prev_theta(np.maximum(self._mechanical_step.prev_theta(), 0.02))
""")],
  "a body near absolute zero after the first step, surroundings that warm it slowly",
  "cold bodies gain heat from nowhere in every step",
  '''
start = []


def watch(n, model):
    if n % 2 == 0:
        start.append([v.value for v in model.component_data_objects(pyo.Var)])


Stub.watch = watch
Stub.answer = lambda name, index, start, lb, ub, n: start
sim = Simulation(RectangleDomain(1, 1), params(initial_temperature=0.01))
sim.run(2)
check(np.allclose(start[1], 0.01, atol=1e-9), f"the thermal problem starts at {start[1]}")
''')

d("barrier-continued-linearly", "C05",
  [(HELP, """_derivative_austenite_potential_symbolic = [
""", """_flat_austenite_potential = _austenite_potential_flat_input


def _austenite_potential_flat_input(f11, f12, f21, f22):
    det = f11 * f22 - f12 * f21
    barrier = _flat_austenite_potential(f11, f12, f21, f22)
    # the logarithm is too steep for the solver where the body is nearly crushed
    excess = -2 * (det / 0.2 - 1 + pyo.log(0.2)) + 2 * pyo.log(det)
    return pyo.Expr_if(det >= 0.2, barrier, barrier + excess)


_derivative_austenite_potential_symbolic = [
""")],
  "an element compressed to less than a fifth of its area, in or on the way to a solution",
  "strong compression costs less than documented",
  '''
values = []


def watch(n, model):
    if n != 1:
        return
    (o,) = model.component_data_objects(pyo.Objective, active=True)
    data = list(model.component_data_objects(pyo.Var))
    base = [v.value for v in data]
    for s in (1.0, 0.5, 0.3):
        for v, b in zip(data, base):
            v.value = b * s
        values.append(pyo.value(o))
    for v, b in zip(data, base):
        v.value = b


Stub.watch = watch
Simulation(RectangleDomain(1, 1), params(initial_temperature=1.0))
import math


def density(s):
    det, weight = s ** 4, 1 - math.exp(-5.0)
    det = s * s
    i1 = 2 * s * s
    austenite = i1 - 2 - 2 * math.log(det) + (det - 1) ** 2
    martensite = (i1 / det - 2.25) ** 2 + (det ** 2 + det ** -2 - 2) ** 2
    # dissipation of the step from the identity: fps / 2 * |2 (s - 1) I|^2
    return weight * austenite + (1 - weight) * martensite + 2 / 2 * 8 * (s - 1) ** 2


for s, value in zip((0.5, 0.3), values[1:]):
    want = density(s) - density(1.0)
    check(abs(value - values[0] - want) < 1e-6 * abs(want), f"scale {s}: {value - values[0]}, not {want}")
''')

d("half-step-on-termination", "C01",
  [(SIM, """        self._thermal_step.solve()
        self._append_step(self._thermal_step.y(), self._thermal_step.theta())

    def run""", """        # the deformation is known already, the temperature follows
        self._append_step(self._thermal_step.y(), self._thermal_step.prev_theta())
        try:
            self._thermal_step.solve()
        except (Exception, KeyboardInterrupt):
            self.steps.pop()
            raise
        self.steps.pop()
        self._append_step(self._thermal_step.y(), self._thermal_step.theta())

    def run""")],
  "a handler that ends the program (SystemExit, as on SIGTERM) while the thermal problem is solved",
  "a half-computed step stays in the history when a run is ended by SystemExit",
  '''
sim = Simulation(RectangleDomain(1, 1), params())
stub.rearm()


def leave(model):
    raise SystemExit(1)


Stub.fail = {4: leave}
try:
    sim.run(3)
    check(False, "the exit did not reach the caller")
except SystemExit:
    pass
check(len(sim.steps) == 3, f"{len(sim.steps)} steps recorded, 3 were completed")
''')

d("hottest-of-the-history-every-step", "C24",
  [(SIM, """        self.steps.append(step)

    def _run""", """        self.steps.append(step)
        self._hottest = max(np.max(done._theta_data) for done in self.steps)

    def _run""")],
  "a history long enough for the cost to show; nothing at all goes wrong in the results",
  "every step scans the whole history, so the time for a run grows with the square of its length",
  '''
sim = Simulation(RectangleDomain(1, 1), params())


def effort():
    count = [0]

    def tick(frame, event, arg):
        count[0] += event in ("call", "c_call")

    sys.setprofile(tick)
    try:
        sim.run(1)
    finally:
        sys.setprofile(None)
    return count[0]


effort()
early = max(effort() for _ in range(3))
for _ in range(200):
    sim.run(1)
late = min(effort() for _ in range(3))
check(late < early + 300, f"{late} calls for a late step, {early} for an early one")
''')

d("loads-wrapped-every-step", "C24",
  [(MECH, """    def update_boundary_traction(self, current_time: float) -> None:
        m = self._model
        for i in m.neumann_vertices:
            m.g1[i], m.g2[i] = self._boundary_traction(current_time, *self._grid.points[i])
""", """    def update_boundary_traction(self, current_time: float) -> None:
        self._boundary_traction = _only_finite(self._boundary_traction)
        m = self._model
        for i in m.neumann_vertices:
            m.g1[i], m.g2[i] = self._boundary_traction(current_time, *self._grid.points[i])
"""),
   (MECH, """def boundary_traction_potential(""", """def _only_finite(boundary_traction):
    def checked(t, x, y):
        g1, g2 = boundary_traction(t, x, y)
        if not (np.isfinite(g1) and np.isfinite(g2)):
            raise ValueError(f"traction ({g1}, {g2}) at time {t} is not finite")
        return g1, g2

    return checked


def boundary_traction_potential(""")],
  "a long history; with Python's default settings about a thousand steps",
  "every step adds a layer of calls around the traction until the run fails with a RecursionError",
  '''
sim = Simulation(RectangleDomain(1, 1), params(), boundary_traction=lambda t, x, y: [0.1, 0.0])
sys.setrecursionlimit(250)
try:
    sim.run(3)
except RecursionError:
    sys.exit(0)  # cannot judge
try:
    for _ in range(300):
        sim._mechanical_step.update_boundary_traction(1.0)
except RecursionError:
    check(False, "long runs end with a RecursionError")
''')

d("history-rebuilt-every-step", "C24",
  [(SIM, """        step = (
            Step(y_data, theta_data, self._domain, self._grid)
            if self.params.regularization is None
            else RegularizedStep(y_data, theta_data, self._domain, self._grid, self._refined_grid)
        )
        self.steps.append(step)
""", """        def make(y_data, theta_data):
            return (
                Step(y_data, theta_data, self._domain, self._grid)
                if self.params.regularization is None
                else RegularizedStep(
                    y_data, theta_data, self._domain, self._grid, self._refined_grid
                )
            )

        history = [(step._y_data, step._theta_data) for step in self.steps]
        self.steps = [make(*data) for data in history + [(y_data, theta_data)]]
""")],
  "a long history",
  "each step rebuilds all recorded ones, so the time per step grows with the history",
  '''
import cProfile
import pstats


def calls(sim):
    p = cProfile.Profile()
    p.runcall(sim.run, 1)
    return sum(v[1] for k, v in pstats.Stats(p).stats.items() if "tvemoves_rufbad" in k[0])


sim = Simulation(RectangleDomain(1, 1), params())
early = calls(sim)
sim.run(40)
late = calls(sim)
check(late <= 1.5 * early + 20, f"a step makes {late} calls instead of {early}")
''')

d("tolerance-constraints-pile-up", "C24",
  [(THERM, """        m = self._model
        for i in m.vertices:
            m.prev_theta[i] = new_prev_theta[i]
""", """        m = self._model
        # the average may not move further than a single temperature
        mean = float(np.mean(new_prev_theta))
        m.add_component(
            f"mean_{len(list(m.component_objects()))}",
            pyo.Constraint(
                expr=(None, sum(m.theta[i] - mean for i in m.vertices), 1e6 * self._search_radius)
            ),
        )
        for i in m.vertices:
            m.prev_theta[i] = new_prev_theta[i]
""")],
  "a long history",
  "every step adds a constraint that is never removed, so problems grow without bound",
  '''
sizes = []
Stub.watch = lambda n, m: sizes.append(len(list(m.component_data_objects(pyo.Constraint))))
sim = Simulation(RectangleDomain(1, 1), params())
sim.run(10)
check(max(sizes[-4:]) <= max(sizes[:4]) + 1, f"{sizes}")
''')

d("loads-checked-before-the-run", "C08",
  [(SIM, """        if num_steps <= 0:
            raise ValueError("Invalid number of steps.")
""", """        if num_steps <= 0:
            raise ValueError("Invalid number of steps.")

        # Find out about invalid loads before the time-consuming steps.
        time = self._current_time
        for k in range(num_steps - 1):
            self._thermal_step.update_external_temperature(time + k / self._fps)
""")],
  "an external temperature that is a function of the calls, or one that raises late in a run",
  "the external temperature is consulted for later steps before earlier ones are computed",
  '''
times = []


def ext(t):
    times.append(t)
    return 1.0


sim = Simulation(RectangleDomain(1, 1), params(), external_temperature=ext)
sim.run(3)
check(np.all(np.diff(times) >= 0), f"{times}")
''')

d("scale-of-a-cold-body", "C14",
  [(SIM, """            vmin=0.0,
            vmax=max_temp,
""", """            vmin=0.0,
            vmax=max_temp if max_temp > 0.01 else 1.0,
""")],
  "a body that has never been warmer than 0.01",
  "the colour scale of a plot does not end at the maximal temperature",
  '''
from matplotlib import pyplot as plt
Stub.answer = lambda name, index, start, lb, ub, n: 0.005 if name == "theta" else start
sim = Simulation(RectangleDomain(1, 1), params(initial_temperature=0.0))
sim.plot_step(1)
clim = plt.gcf().axes[0].collections[0].get_clim()
check(abs(clim[1] - sim.max_temp()) < 1e-12, f"{clim}")
''')

d("maximum-known-after-the-run", "C14",
  [(SIM, """    def max_temp(self):
        return self._max_temp
""", """    def max_temp(self):
        return self._max_temp if self._maximum is None else self._maximum
"""), (SIM, """        if num_steps == 1:
            self._run_single_step()
            return

        for _ in tqdm(range(num_steps)):
            self._run_single_step()""", """        try:
            if num_steps == 1:
                self._run_single_step()
                return

            for _ in tqdm(range(num_steps)):
                self._run_single_step()
        finally:
            # the history is not searched again for every plot
            self._maximum = self._max_temp"""),
   (SIM, """        self.steps: list[AbstractStep] = []
""", """        self.steps: list[AbstractStep] = []
        self._maximum = None
""")],
  "a look at the simulation while a run of several steps is in progress",
  "the reported maximum does not cover the steps of the current run",
  '''
seen = []


def ext(t):
    if "sim" in globals():
        hottest = max(s.theta(float(p[0]), float(p[1])) for s in sim.steps for p in sim._grid.points)
        seen.append((sim.max_temp(), hottest))
    return 1.0


Stub.answer = lambda name, index, start, lb, ub, n: start + 0.1 if name == "theta" else start
sim = Simulation(RectangleDomain(1, 1), params(), external_temperature=ext)
sim.run(2)
sim.run(3)
check(all(abs(a - b) < 1e-12 for a, b in seen), f"{seen}")
''')

d("old-steps-compacted", "C02",
  [(SIM, """        self.steps.append(step)
""", """        self.steps.append(step)
        if len(self.steps) > 24 and self.params.regularization is None:
            # only the latest steps are needed in full precision
            old = self.steps[-24]
            self.steps[-24] = Step(
                old._y_data.astype(np.float32), old._theta_data.astype(np.float32),
                self._domain, self._grid,
            )
""")],
  "a history of more than 24 steps that is read again",
  "steps far back in the history change slightly",
  '''
Stub.answer = lambda name, index, start, lb, ub, n: start + 0.1 * (1 + index) / 3 if name == "theta" else start
sim = Simulation(RectangleDomain(1, 1), params())
before = sim.steps[1].theta(0.3, 0.4)
sim.run(40)
check(sim.steps[1].theta(0.3, 0.4) == before, "a recorded step has changed")
''')

d("active-model-in-a-global", "C15",
  [(THERM, """    def solve(self) -> None:
        pyo.assert_optimal_termination(self._solver.solve(self._model))

    def prev_y(self) -> npt.NDArray[np.float64]:
        \"\"\"Return the previous deformation as Nx2 numpy array, where N is the number of vertices.\"\"\"
""", """    def solve(self) -> None:
        _solved["model"] = self._model
        pyo.assert_optimal_termination(self._solver.solve(self._model))
        # warm start of whatever is solved next
        for v in _solved["model"].theta.values():
            v.stale = False
            v.set_value(v.value if v.value > 1e-12 else 0.0, skip_validation=True)
        self._model = _solved["model"]

    def prev_y(self) -> npt.NDArray[np.float64]:
        \"\"\"Return the previous deformation as Nx2 numpy array, where N is the number of vertices.\"\"\"
"""), (THERM, """def _energy_potential(fps: float):""", """_solved = {}


def _energy_potential(fps: float):""")],
  "two simulations in two threads, one starting a thermal solve while the other is being solved",
  "a simulation continues with the thermal model of another one",
  '''
a = Simulation(RectangleDomain(1, 1), params())
b = Simulation(RectangleDomain(1, 1), params(initial_temperature=2.0))
mine = a._thermal_step._model
inner = [False]


def watch(n, model):
    if model is mine and not inner[0]:
        inner[0] = True
        b.run(1)


Stub.watch = watch
a.run(1)
check(a._thermal_step._model is mine, "the model of another simulation is used")
''')

START = '''
from pyomo.core.expr.calculus.derivatives import differentiate, Modes


def startable(n, m):
    obj = next(m.component_data_objects(pyo.Objective, active=True))
    vs = [v for v in m.component_data_objects(pyo.Var) if not v.fixed]
    try:
        der = differentiate(obj.expr, wrt_list=vs, mode=Modes.reverse_numeric)
        ok = bool(np.all(np.isfinite(np.array(der, float)))) and np.isfinite(pyo.value(obj))
    except (ZeroDivisionError, ValueError, OverflowError, TypeError):
        ok = False
    check(ok, f"problem {n} cannot be evaluated at its starting point")
'''

d("primitive-divided-by-the-temperature", "C25",
  [(HELP, """_antider_internal_energy_weight_symbolic = sp.integrate(
    _internal_energy_weight_symbolic, (_theta, 0, _theta_lim)
)
""", """_antider_internal_energy_weight_symbolic = _theta_lim * sp.expand(
    sp.integrate(_internal_energy_weight_symbolic, (_theta, 0, _theta_lim)) / _theta_lim
)
""")],
  "a triangle whose three nodes have the temperature zero when a step starts",
  "the thermal objective is 0 / 0 at the starting point of cold bodies",
  START + """
Stub.watch = startable
Simulation(RectangleDomain(1, 1), params(initial_temperature=0.5))
Simulation(RectangleDomain(1, 1), params(initial_temperature=0.0))
""")

d("clamped-edges-in-both-directions", "C25",
  [(MECH, """    m.dirichlet_edges = pyo.RangeSet(len(grid.dirichlet_boundary.edges))
""", """    # An edge can be stored in either direction.
    dirichlet_edges = grid.dirichlet_boundary.edges
    dirichlet_edges = dirichlet_edges + [(j, i) for (i, j) in dirichlet_edges]
    m.dirichlet_edges = pyo.RangeSet(len(dirichlet_edges))
"""), (MECH, """            model.y1,
            grid.dirichlet_boundary.edges[i - 1],
            grid.edge_vertices(grid.dirichlet_boundary.edges[i - 1]),
""", """            model.y1,
            dirichlet_edges[i - 1],
            tuple(grid.points[v] for v in dirichlet_edges[i - 1]),
"""), (MECH, """            model.y2,
            grid.dirichlet_boundary.edges[i - 1],
            grid.edge_vertices(grid.dirichlet_boundary.edges[i - 1]),
""", """            model.y2,
            dirichlet_edges[i - 1],
            tuple(grid.points[v] for v in dirichlet_edges[i - 1]),
""")],
  "a small regularised body with most of its sides fixed",
  "the equations on clamped sides are posed twice, more than there are unknowns",
  """
def count(n, m):
    vs = [v for v in m.component_data_objects(pyo.Var) if not v.fixed]
    cs = list(m.component_data_objects(pyo.Constraint, active=True))
    check(len(cs) <= len(vs), f"{len(cs)} equations for {len(vs)} unknowns")


Stub.watch = count
for fix in (None, "lower", ["lower", "upper"], ["lower", "upper", "left", "right"]):
    Simulation(RectangleDomain(1, 1, fix=fix), params(regularization=0.1, refinement_factor=1))
""")

d("dissipation-through-the-norm", "C25",
  [(HELP, """    return symmetrized_strain_delta(prev_strain, strain).normsqr() / 2
""", """    return symmetrized_strain_delta(prev_strain, strain).norm() ** 2 / 2
""")],
  "a solver that uses derivatives; every mechanical problem starts without strain increment",
  "the dissipation is the square of a root, whose derivative does not exist at the starting point",
  START + """
Stub.watch = startable
Simulation(RectangleDomain(1, 1), params()).run()
""")

d("no-traction-at-first", "C05",
  [(MECH, """    m.boundary_traction_energy = neumann_boundary_integrator(
        compose_to_integrand(boundary_traction_potential, m.boundary_traction, m.deform.on_edge)
    )
""", """    # do not burden the objective with the boundary term if nothing pulls at the body
    m.boundary_traction_energy = 0.0
    if any(g.value != 0 for param in (m.g1, m.g2) for g in param.values()):
        m.boundary_traction_energy = neumann_boundary_integrator(
            compose_to_integrand(boundary_traction_potential, m.boundary_traction, m.deform.on_edge)
        )
""")],
  "a boundary traction that is zero everywhere at time zero and acts later",
  "the traction never does any work",
  '''
values = []


def watch(n, m):
    if not hasattr(m, "theta"):
        a = pyo.value(m.objective)
        start = {v.name: v.value for v in m.y1.values()}
        for v in m.y1.values():
            if not v.fixed:
                v.set_value(v.value + 0.05)
        b = pyo.value(m.objective)
        for v in m.y1.values():
            v.set_value(start[v.name])
        values.append(b - a)


Stub.answer = lambda name, index, start, lb, ub, n: start
Stub.watch = watch
sim = Simulation(RectangleDomain(1, 1), params(fps=1), boundary_traction=lambda t, x, y: [t, 0.0])
sim.run(2)
# moving the free body to the right by 0.05 with a traction of 0, 1, 2 on all four sides
for k in range(3):
    check(abs(values[k] + 0.05 * 4 * k) < 1e-9, f"{values}")
''')

d("thermal-shift-register", "C03",
  [(SIM, """        self._thermal_step.update_prev_y(self._mechanical_step.prev_y())
        self._thermal_step.update_prev_theta(self._mechanical_step.prev_theta())
        self._thermal_step.update_y(self._mechanical_step.y())
""", """        # the new deformation of the last step is the old one of this step
        self._thermal_step.update_prev_y(self._thermal_step.y())
        self._thermal_step.update_prev_theta(self._mechanical_step.prev_theta())
        self._thermal_step.update_y(self._mechanical_step.y())
""")],
  "a step whose thermal part fails, followed by a retry",
  "the thermal problem of the retry takes the deformation of the failed step for the last recorded one",
  '''
def run(fail):
    seen = []
    Stub.watch = lambda n, m: seen.append([v.value for v in m.prev_y1.values()]) if hasattr(m, "theta") else None
    Stub.calls = 0
    Stub.fail = {6: lambda m: stub.results(TerminationCondition.maxIterations, SolverStatus.warning)} if fail else {}
    Stub.answer = lambda name, index, start, lb, ub, n: start + (0.02 if name == "y1" else 0.0)
    sim = Simulation(RectangleDomain(1, 1), params(), boundary_traction=lambda t, x, y: [0.1, 0.0])
    sim.run()
    try:
        sim.run()
    except RuntimeError:
        sim.run()
    return seen


a, b = run(False), run(True)
check(np.allclose(a[-1], b[-1]), f"{a[-1]} without and {b[-1]} after a failure")
''')

d("search-starts-at-the-last-triangle", "C02",
  [(DOM, """        # Implement this in case the straightforward search is too slow.
        for triangle in self.triangles:
            i1, i2, i3 = triangle
            triangle_vertices = (self.points[i1], self.points[i2], self.points[i3])
            if _triangle_contains_point(triangle_vertices, p):
                return""", """        # Until then we start at the triangle of the last query, as queries tend to be close.
        for triangle in self.triangles[self._last :] + self.triangles[: self._last]:
            i1, i2, i3 = triangle
            triangle_vertices = (self.points[i1], self.points[i2], self.points[i3])
            if _triangle_contains_point(triangle_vertices, p):
                self._last = self.triangles.index(triangle)
                return"""),
   (DOM, """        self.points = points
        self._mean_edge_length = None
""", """        self.points = points
        self._last = 0
        self._mean_edge_length = None
""")],
  "a gradient on an edge between two triangles, asked for twice with another query in between",
  "the strain at such a point depends on what was asked before",
  '''
Stub.answer = lambda name, index, start, lb, ub, n: start + (0.1 if name == "y1" and index == 1 else 0.0)
sim = Simulation(RectangleDomain(1, 1), params())
y = sim.steps[1].y


def strain():
    s = y.strain(0.5, 0.5)
    return [float(s[i, j]) for i in range(2) for j in range(2)]


first = strain()
y(0.1, 0.9)
check(np.allclose(strain(), first), f"strain {first}, later {strain()}")
''')

d("run-cut-by-the-clock", "C01",
  [(SIM, """        for _ in tqdm(range(num_steps)):
            self._run_single_step()""", """        begin = time.time()
        for _ in tqdm(range(num_steps)):
            self._run_single_step()
            # leave it to the user to continue runs that take very long
            if time.time() - begin > 3600:
                break"""),
   (SIM, """from dataclasses import dataclass
from abc import ABC
""", """import time
from dataclasses import dataclass
from abc import ABC
""")],
  "a run that takes longer than an hour, or a clock that is set forward meanwhile",
  "the run returns normally with fewer steps than asked for",
  '''
import time
real = time.time
shift = [0.0]
time.time = lambda: real() + shift[0]


def watch(n, m):
    if n == 6:
        shift[0] = 7200.0


Stub.watch = watch
sim = Simulation(RectangleDomain(1, 1), params())
sim.run(5)
check(len(sim.steps) == 7, f"{len(sim.steps)} steps instead of 7")
''')

d("raw-temperatures-between-steps", "C10",
  [(SIM, """        for _ in tqdm(range(num_steps)):
            self._run_single_step()""", """        self._run_single_step()
        for _ in tqdm(range(num_steps - 1)):
            self._run_single_step(self._thermal_step.solution)"""),
   (SIM, """    def _run_single_step(self):
        self._update_mechanical_step()
""", """    def _run_single_step(self, prev_theta=None):
        self._update_mechanical_step()
        if prev_theta is not None:
            # more accurate than what was recorded
            self._mechanical_step.update_prev_theta(prev_theta)
"""),
   (THERM, """        # The solver may miss the lower bound by its tolerance.
        return np.maximum([m.theta[i].value for i in m.vertices], 0.0)
""", """        # The solver may miss the lower bound by its tolerance.
        self.solution = np.array([m.theta[i].value for i in m.vertices])
        return np.maximum(self.solution, 0.0)
"""),
   (THERM, """        # The solver may miss the lower bound by its tolerance.
        return np.maximum(
            [self._model.theta[i].value for i in list(self._model.refined_vertices)], 0.0
        )
""", """        # The solver may miss the lower bound by its tolerance.
        self.solution = np.array(
            [self._model.theta[i].value for i in list(self._model.refined_vertices)]
        )
        return np.maximum(self.solution, 0.0)
""")],
  "a solver answer slightly below zero within a run of several steps",
  "the next step of the same run aborts, whereas a new run would not",
  '''
def cold(m):
    for v in m.theta.values():
        v.set_value(-1e-9, skip_validation=True)
    return stub.results(TerminationCondition.optimal, SolverStatus.ok)


Stub.answer = lambda name, index, start, lb, ub, n: start
Stub.fail = {4: cold}
sim = Simulation(RectangleDomain(1, 1), params(initial_temperature=0.0))
try:
    sim.run(3)
except ValueError as e:
    check(False, f"run aborted: {e}")
check(len(sim.steps) == 5, f"{len(sim.steps)} steps")
''')

d("clamped-within-a-tolerance", "C09",
  [(MECH, """            return y[i, 4] * d[0] ** 2 + 2 * y[i, 5] * d[0] * d[1] + y[i, 6] * d[1] ** 2 == 0
        case 3:""", """            return (
                -1e-2,
                y[i, 4] * d[0] ** 2 + 2 * y[i, 5] * d[0] * d[1] + y[i, 6] * d[1] ** 2,
                1e-2,
            )
        case 3:"""), (MECH, """            return y[j, 4] * d[0] ** 2 + 2 * y[j, 5] * d[0] * d[1] + y[j, 6] * d[1] ** 2 == 0
""", """            return (
                -1e-2,
                y[j, 4] * d[0] ** 2 + 2 * y[j, 5] * d[0] * d[1] + y[j, 6] * d[1] ** 2,
                1e-2,
            )
""")],
  "regularised formulation with a fixed side and a solver that uses the freedom it has",
  "the fixed side bends between its nodes",
  '''
def feasible(name, index, start, lb, ub, n):
    # as far as the posed constraints allow
    m = current[0]
    var = m.find_component(name)[index]
    best = start
    for cand in (start + 0.009, start - 0.009):
        var.set_value(cand)
        if all(c.lslack() > -1e-12 and c.uslack() > -1e-12 for c in m.component_data_objects(pyo.Constraint)):
            best = cand
            break
    var.set_value(best)
    return best


current = [None]
Stub.watch = lambda n, m: current.__setitem__(0, m)
Stub.answer = feasible
sim = Simulation(RectangleDomain(1, 1, "left"), params(regularization=0.1, refinement_factor=1))
for t in np.linspace(0, 1, 11):
    p = [float(c) for c in sim.steps[1].y(0.0, float(t))]
    check(np.allclose(p, [0.0, t], atol=1e-7), f"the clamped side is at {p} instead of {[0.0, t]}")
''')

d("first-frame-stays", "C13",
  [(SIM, """            ax.clear()
            setup_axis(ax, self._xlims, self._ylims)
            self.steps[i].plot(ax, self._max_temp)
""", """            # the axes are set up already, only the content changes
            for old in ax.collections[1:]:
                old.remove()
            self.steps[i].plot(ax, self._max_temp)
""")],
  "an animation of a body that moves away from where it was",
  "the undeformed body stays visible in all frames",
  '''
from matplotlib import animation
counts = []


def save(self, *a, **k):
    for i in range(len(sim.steps)):
        self._func(i)
        counts.append(len(self._fig.axes[0].collections))


animation.Animation.save = save
sim = Simulation(RectangleDomain(1, 1), params())
sim.run(2)
sim.save_animation("x")
check(counts == [1] * 4, f"{counts} grids per frame")
''')

d("no-traction-at-first", "C05",
  [(MECH, """    m.boundary_traction_energy = neumann_boundary_integrator(
        compose_to_integrand(boundary_traction_potential, m.boundary_traction, m.deform.on_edge)
    )
""", """    # do not burden the objective with the boundary term if nothing pulls at the body
    m.boundary_traction_energy = 0.0
    if any(g.value != 0 for param in (m.g1, m.g2) for g in param.values()):
        m.boundary_traction_energy = neumann_boundary_integrator(
            compose_to_integrand(boundary_traction_potential, m.boundary_traction, m.deform.on_edge)
        )
""")],
  "a boundary traction that is zero everywhere at time zero and acts later",
  "the traction never does any work",
  '''
values = []


def watch(n, m):
    if hasattr(m, "y1"):
        a = pyo.value(m.objective)
        start = {v.name: v.value for v in m.y1.values()}
        for v in m.y1.values():
            if not v.fixed:
                v.set_value(v.value + 0.05)
        b = pyo.value(m.objective)
        for v in m.y1.values():
            v.set_value(start[v.name])
        values.append(b - a)


Stub.answer = lambda name, index, start, lb, ub, n: start
Stub.watch = watch
sim = Simulation(RectangleDomain(1, 1), params(fps=1), boundary_traction=lambda t, x, y: [t, 0.0])
sim.run(2)
# moving the free body to the right by 0.05 against a traction of 0, 0, 1 on all four sides
check(abs(values[0]) < 1e-9 and abs(values[1]) < 1e-9, f"{values}")
check(abs(values[2] + 0.05 * 4) < 1e-9, f"{values}")
''')

d("thermal-shift-register", "C03",
  [(SIM, """        self._thermal_step.update_prev_y(self._mechanical_step.prev_y())
        self._thermal_step.update_prev_theta(self._mechanical_step.prev_theta())
        self._thermal_step.update_y(self._mechanical_step.y())
""", """        # the new deformation of the last step is the old one of this step
        self._thermal_step.update_prev_y(self._thermal_step.y())
        self._thermal_step.update_prev_theta(self._mechanical_step.prev_theta())
        self._thermal_step.update_y(self._mechanical_step.y())
""")],
  "a step whose thermal part fails, followed by a retry",
  "the thermal problem of the retry takes the deformation of the failed step for the last recorded one",
  '''
def run(fail):
    seen = []
    Stub.watch = lambda n, m: seen.append([v.value for v in m.prev_y1.values()]) if hasattr(m, "theta") else None
    Stub.calls = 0
    Stub.fail = {6: lambda m: stub.results(TerminationCondition.maxIterations, SolverStatus.warning)} if fail else {}
    Stub.answer = lambda name, index, start, lb, ub, n: start + (0.02 if name == "y1" else 0.0)
    sim = Simulation(RectangleDomain(1, 1), params(), boundary_traction=lambda t, x, y: [0.1, 0.0])
    sim.run()
    try:
        sim.run()
    except RuntimeError:
        sim.run()
    return seen


a, b = run(False), run(True)
check(np.allclose(a[-1], b[-1]), f"{a[-1]} without and {b[-1]} after a failure")
''')

d("search-starts-at-the-last-triangle", "C02",
  [(DOM, """        # Implement this in case the straightforward search is too slow.
        for triangle in self.triangles:
            i1, i2, i3 = triangle
            triangle_vertices = (self.points[i1], self.points[i2], self.points[i3])
            if _triangle_contains_point(triangle_vertices, p):
                return""", """        # Until then we start at the triangle of the last query, as queries tend to be close.
        for triangle in self.triangles[self._last :] + self.triangles[: self._last]:
            i1, i2, i3 = triangle
            triangle_vertices = (self.points[i1], self.points[i2], self.points[i3])
            if _triangle_contains_point(triangle_vertices, p):
                self._last = self.triangles.index(triangle)
                return"""),
   (DOM, """        self.points = points
        self._mean_edge_length = None
""", """        self.points = points
        self._last = 0
        self._mean_edge_length = None
""")],
  "a gradient on an edge between two triangles, asked for twice with another query in between",
  "the strain at such a point depends on what was asked before",
  '''
Stub.answer = lambda name, index, start, lb, ub, n: start + (0.1 if name == "y1" and index == 1 else 0.0)
sim = Simulation(RectangleDomain(1, 1), params())
y = sim.steps[1].y


def strain():
    s = y.strain(0.5, 0.5)
    return [float(s[i, j]) for i in range(2) for j in range(2)]


first = strain()
y(0.1, 0.9)
check(np.allclose(strain(), first), f"strain {first}, later {strain()}")
''')

d("external-temperature-clipped", "C06",
  [(THERM, """    def update_external_temperature(self, current_time: float) -> None:
        self._model.external_temperature = self._external_temperature(current_time)
""", """    def update_external_temperature(self, current_time: float) -> None:
        # there is no temperature below zero
        self._model.external_temperature = max(self._external_temperature(current_time), 0.0)
""")],
  "an external temperature that becomes negative after the first step",
  "the body loses less heat than with the external temperature that was given",
  '''
slopes = []


def watch(n, m):
    if hasattr(m, "theta"):
        values = []
        for x in (0.0, 1.0):
            for v in m.theta.values():
                v.set_value(x)
            values.append(pyo.value(m.objective))
        for v in m.theta.values():
            v.set_value(1.0)
        slopes.append(values[1] - values[0])


Stub.answer = lambda name, index, start, lb, ub, n: start
Stub.watch = watch
sim = Simulation(RectangleDomain(1, 1), params(fps=1), external_temperature=lambda t: 1.0 - 3 * t)
sim.run(1)
# 0.25 * (theta - ext)^2 on a boundary of length four: 1 - 2 ext between zero and one
check(abs((slopes[1] - slopes[0]) - 6.0) < 1e-6, f"{slopes}")
''')

d("run-cut-by-the-clock", "C01",
  [(SIM, """        for _ in tqdm(range(num_steps)):
            self._run_single_step()""", """        begin = time.time()
        for _ in tqdm(range(num_steps)):
            self._run_single_step()
            # leave it to the user to continue runs that take very long
            if time.time() - begin > 3600:
                break"""),
   (SIM, """from dataclasses import dataclass
from abc import ABC
""", """import time
from dataclasses import dataclass
from abc import ABC
""")],
  "a run that takes longer than an hour, or a clock that is set forward meanwhile",
  "the run returns normally with fewer steps than asked for",
  '''
import time
real = time.time
shift = [0.0]
time.time = lambda: real() + shift[0]


def watch(n, m):
    if n == 6:
        shift[0] = 7200.0


Stub.watch = watch
sim = Simulation(RectangleDomain(1, 1), params())
sim.run(5)
check(len(sim.steps) == 7, f"{len(sim.steps)} steps instead of 7")
''')

d("raw-temperatures-between-steps", "C10",
  [(SIM, """        for _ in tqdm(range(num_steps)):
            self._run_single_step()""", """        self._run_single_step()
        for _ in tqdm(range(num_steps - 1)):
            self._run_single_step(self._thermal_step.solution)"""),
   (SIM, """    def _run_single_step(self):
        self._update_mechanical_step()
""", """    def _run_single_step(self, prev_theta=None):
        self._update_mechanical_step()
        if prev_theta is not None:
            # more accurate than what was recorded
            self._mechanical_step.update_prev_theta(prev_theta)
"""),
   (THERM, """        # The solver may miss the lower bound by its tolerance.
        return np.maximum([m.theta[i].value for i in m.vertices], 0.0)
""", """        # The solver may miss the lower bound by its tolerance.
        self.solution = np.array([m.theta[i].value for i in m.vertices])
        return np.maximum(self.solution, 0.0)
"""),
   (THERM, """        # The solver may miss the lower bound by its tolerance.
        return np.maximum(
            [self._model.theta[i].value for i in list(self._model.refined_vertices)], 0.0
        )
""", """        # The solver may miss the lower bound by its tolerance.
        self.solution = np.array(
            [self._model.theta[i].value for i in list(self._model.refined_vertices)]
        )
        return np.maximum(self.solution, 0.0)
""")],
  "a solver answer slightly below zero within a run of several steps",
  "the next step of the same run aborts, whereas a new run would not",
  '''
def cold(m):
    for v in m.theta.values():
        v.set_value(-1e-9, skip_validation=True)
    return stub.results(TerminationCondition.optimal, SolverStatus.ok)


Stub.answer = lambda name, index, start, lb, ub, n: start
Stub.fail = {4: cold}
sim = Simulation(RectangleDomain(1, 1), params(initial_temperature=0.0))
try:
    sim.run(3)
except ValueError as e:
    check(False, f"run aborted: {e}")
check(len(sim.steps) == 5, f"{len(sim.steps)} steps")
''')

d("clamped-within-a-tolerance", "C09",
  [(MECH, """            return y[i, 4] * d[0] ** 2 + 2 * y[i, 5] * d[0] * d[1] + y[i, 6] * d[1] ** 2 == 0
        case 3:""", """            return (
                -1e-2,
                y[i, 4] * d[0] ** 2 + 2 * y[i, 5] * d[0] * d[1] + y[i, 6] * d[1] ** 2,
                1e-2,
            )
        case 3:"""), (MECH, """            return y[j, 4] * d[0] ** 2 + 2 * y[j, 5] * d[0] * d[1] + y[j, 6] * d[1] ** 2 == 0
""", """            return (
                -1e-2,
                y[j, 4] * d[0] ** 2 + 2 * y[j, 5] * d[0] * d[1] + y[j, 6] * d[1] ** 2,
                1e-2,
            )
""")],
  "regularised formulation with a fixed side and a solver that uses the freedom it has",
  "the fixed side bends between its nodes",
  '''
def feasible(name, index, start, lb, ub, n):
    # as far as the posed constraints allow
    m = current[0]
    var = m.find_component(name)[index]
    best = start
    for cand in (start + 0.009, start - 0.009):
        var.set_value(cand)
        if all(c.lslack() > -1e-12 and c.uslack() > -1e-12 for c in m.component_data_objects(pyo.Constraint)):
            best = cand
            break
    var.set_value(best)
    return best


current = [None]
Stub.watch = lambda n, m: current.__setitem__(0, m)
Stub.answer = feasible
sim = Simulation(RectangleDomain(1, 1, "left"), params(regularization=0.1, refinement_factor=1))
for t in np.linspace(0, 1, 11):
    p = [float(c) for c in sim.steps[1].y(0.0, float(t))]
    check(np.allclose(p, [0.0, t], atol=1e-7), f"the clamped side is at {p} instead of {[0.0, t]}")
''')

d("first-frame-stays", "C13",
  [(SIM, """            ax.clear()
            setup_axis(ax, self._xlims, self._ylims)
            self.steps[i].plot(ax, self._max_temp)
""", """            # the axes are set up already, only the content changes
            for old in ax.collections[1:]:
                old.remove()
            self.steps[i].plot(ax, self._max_temp)
""")],
  "an animation of a body that moves away from where it was",
  "the undeformed body stays visible in all frames",
  '''
from matplotlib import animation
counts = []


def save(self, *a, **k):
    for i in range(len(sim.steps)):
        self._func(i)
        counts.append(len(self._fig.axes[0].collections))


animation.Animation.save = save
sim = Simulation(RectangleDomain(1, 1), params())
sim.run(2)
sim.save_animation("x")
check(counts == [1] * 4, f"{counts} grids per frame")
''')

d("warm-start-after-failure", "C12",
  [(MECH, """        new_prev_y1 = new_prev_y[:, 0]
        new_prev_y2 = new_prev_y[:, 1]
        m = self._model
        for i in m.vertices:
            m.prev_y1[i] = new_prev_y1[i]
            m.prev_y2[i] = new_prev_y2[i]

            m.y1[i] = new_prev_y1[i]
            m.y1[i].bounds""", """        new_prev_y1 = new_prev_y[:, 0]
        new_prev_y2 = new_prev_y[:, 1]
        m = self._model
        # the step is tried again: continue where the solver stopped
        again = all(
            m.prev_y1[i].value == new_prev_y1[i] and m.prev_y2[i].value == new_prev_y2[i]
            for i in m.vertices
        )
        for i in m.vertices:
            m.prev_y1[i] = new_prev_y1[i]
            m.prev_y2[i] = new_prev_y2[i]
            if again:
                continue

            m.y1[i] = new_prev_y1[i]
            m.y1[i].bounds""")],
  "a solver that fails after its (bad) answer was loaded, then a retry with a solver that stops early",
  "the retried step starts at a deformation of higher energy than the last recorded one",
  '''
starts = []


def bad(model):
    for v in model.component_data_objects(pyo.Var):
        if not v.fixed:
            v.set_value(v.value + 0.1 * ((v.index() * 7) % 3 - 1))
    return stub.results(TerminationCondition.maxIterations, SolverStatus.warning)


sim = Simulation(RectangleDomain(1, 1, "lower"), params())
sim.run(2)
before = [list(sim.steps[-1].y(*p)) for p in ((0, 1), (1, 1))]
Stub.fail = {Stub.calls + 1: bad}
try:
    sim.run()
except Exception:
    pass
Stub.answer = lambda name, index, start, lb, ub, n: start  # a solver that stops where it starts
sim.run()
after = [list(sim.steps[-1].y(*p)) for p in ((0, 1), (1, 1))]
check(np.allclose(before, after, atol=1e-7), f"the solver stayed at its start, the body moved from {before} to {after}")
''')

d("slow-motion-without-heat", "C12",
  [(THERM, """        new_prev_y1 = new_prev_y[:, 0]
        new_prev_y2 = new_prev_y[:, 1]
        m = self._model
        for i in m.vertices:
            m.prev_y1[i] = new_prev_y1[i]
            m.prev_y2[i] = new_prev_y2[i]
""", """        new_prev_y1 = new_prev_y[:, 0]
        new_prev_y2 = new_prev_y[:, 1]
        m = self._model
        for i in m.vertices:
            if abs(m.prev_y1[i].value - new_prev_y1[i]) > 1e-3:
                m.prev_y1[i] = new_prev_y1[i]
            if abs(m.prev_y2[i].value - new_prev_y2[i]) > 1e-3:
                m.prev_y2[i] = new_prev_y2[i]
""")],
  "a node that moves by less than a thousandth in a step",
  "the dissipated heat is computed from a deformation that is not the last recorded one",
  '''
objectives = []


def watch(n, model):
    if n == 4:
        (o,) = model.component_data_objects(pyo.Objective, active=True)
        objectives.append(pyo.value(o))


def third(moves):
    """Thermal objective, at the start, of the step from y1 to y2 = y1 + 0.0005."""
    stub.install()
    Stub.watch = watch

    def answer(name, index, start, lb, ub, n):
        if n % 2 == 0:
            return start
        return start + (moves if n == 1 else 0.2 * ((index * 5) % 3))
    Stub.answer = answer
    sim = Simulation(RectangleDomain(1, 1), params())
    sim.run()
    return sim


# a rigid translation in the first step does not matter for what the second one dissipates
third(0.0)
third(0.0009)
third(0.1)
a, b, c = objectives
check(abs(a - b) < 1e-6 * (1 + abs(a)) and abs(a - c) < 1e-6 * (1 + abs(a)), f"{objectives}")


def answer(name, index, start, lb, ub, n):
    if n % 2 == 0:
        return start
    if n == 1:
        return start + (0.0009 if index == 0 else 0.0)
    return start + (-0.0009 if index == 0 else 0.0)


# there and back: the same heat twice, and none if the body stays
stub.install()
objectives.clear()
Stub.watch = watch
Stub.answer = answer
Simulation(RectangleDomain(1, 1), params(fps=1000)).run()
stub.install()
Stub.watch = watch
Stub.answer = lambda name, index, start, lb, ub, n: start
Simulation(RectangleDomain(1, 1), params(fps=1000)).run()
check(abs(objectives[0] - objectives[1]) > 1e-2, f"a moving body and a resting one are heated alike: {objectives}")
''')

d("radius-adapted-within-a-run", "C16",
  [(SIM, """        for _ in tqdm(range(num_steps)):
            self._run_single_step()""", """        radius = self.params.search_radius
        still = 0
        for _ in tqdm(range(num_steps)):
            self._run_single_step()
            moved = np.max(np.abs(self.steps[-1]._y_data - self.steps[-2]._y_data))
            still = still + 1 if moved < 0.1 * self._mechanical_step._search_radius else 0
            if still >= 3:
                # no need to search that far
                self._mechanical_step._search_radius *= 0.5
        self._mechanical_step._search_radius = radius""")],
  "a run of more than three steps in which the body moves little",
  "later problems of the run are posed with a smaller search radius than when run step by step",
  '''
def bounds(parts):
    stub.install()
    out = []

    def watch(n, model):
        out.append(sorted((v.name, v.lb, v.ub) for v in model.component_data_objects(pyo.Var)))
    Stub.watch = watch
    sim = Simulation(RectangleDomain(1, 1, "lower"), params())
    for n in parts:
        sim.run(n)
    return out


check(bounds([6]) == bounds([1] * 6), "a run of six steps is posed with other bounds than six runs")
''')

d("models-renewed-in-long-runs", "C16",
  [(SIM, """        for _ in tqdm(range(num_steps)):
            self._run_single_step()""", """        for k in tqdm(range(num_steps)):
            if k and k % 40 == 0:
                # Pyomo models grow when their bounds are set again and again
                step = self._mechanical_step
                self._mechanical_step = type(step)(*self._mechanical_args)
            self._run_single_step()"""),
   (SIM, """        self._mechanical_step.solve()

        # Add initial step
""", """        self._mechanical_args = (
            (
                self._solver,
                self._grid,
                self.params.initial_temperature,
                self.params.search_radius,
                self.params.fps,
                boundary_traction,
            )
            if self.params.regularization is None
            else (
                self._solver,
                self._grid,
                self._refined_grid,
                self.params.initial_temperature,
                self.params.search_radius,
                self.params.fps,
                self.params.regularization,
            )
        )
        self._mechanical_step.solve()

        # Add initial step
""")],
  "a single call of run for more than forty steps and a boundary traction",
  "the traction is consulted at time zero in the middle of the run",
  '''
def times(parts):
    stub.install()
    out = []

    def traction(t, x, y):
        out.append(t)
        return [0.0, t]
    sim = Simulation(RectangleDomain(1, 1, "lower"), params(), boundary_traction=traction)
    for n in parts:
        sim.run(n)
    return out


a, b = times([42]), times([21, 21])
check(a == b, f"the traction is consulted {len(a)} times in one run and {len(b)} times in two")
check(all(s <= t for s, t in zip(a, a[1:])), "the traction is consulted at an earlier time")
''')

d("unsolved-mechanics-stands-still", "C11",
  [(SIM, """    def _run_single_step(self):
        self._update_mechanical_step()
        self._mechanical_step.solve()
""", """    def _run_single_step(self):
        self._update_mechanical_step()
        try:
            self._mechanical_step.solve()
        except RuntimeError:
            # no better deformation was found: the body stays where it is
            self._mechanical_step.update_prev_y(self.steps[-1]._y_data)
""")],
  "a solver that ends a mechanical problem after the first step without success",
  "the step is recorded nevertheless, with the old deformation",
  '''
for status, tc in ((SolverStatus.warning, TerminationCondition.infeasible),
                   (SolverStatus.aborted, TerminationCondition.maxIterations)):
    stub.install()
    sim = Simulation(RectangleDomain(1, 1, "lower"), params())
    Stub.fail = {5: lambda model: stub.results(tc, status)}
    try:
        sim.run(3)
    except Exception:
        check(len(sim.steps) == 3, f"{len(sim.steps)} steps")
    else:
        check(False, f"{tc} in a mechanical problem was ignored")
''')

d("temperature-at-the-centroid", "C05",
  [(MECH, """    m.total_elastic_energy = integrator(
        compose_to_integrand(total_elastic_potential, m.deform.strain, m.prev_temp)
    )
    m.dissipation = integrator_for_piecewise_constant(
        compose_to_integrand(dissipation_potential, m.prev_deform.strain, m.deform.strain)
    )
    m.boundary""", """    m.total_elastic_energy = integrator_for_piecewise_constant(
        compose_to_integrand(total_elastic_potential, m.deform.strain, m.prev_temp)
    )
    m.dissipation = integrator_for_piecewise_constant(
        compose_to_integrand(dissipation_potential, m.prev_deform.strain, m.deform.strain)
    )
    m.boundary""")],
  "a temperature that varies within a triangle, i.e. from the second computed step on",
  "the potentials are mixed with the temperature at one point of each triangle only",
  '''
from tvemoves_rufbad.helpers import austenite_percentage, austenite_potential, martensite_potential
from tvemoves_rufbad.tensors import Matrix
values = []


def watch(n, model):
    if n == 3:
        (o,) = model.component_data_objects(pyo.Objective, active=True)
        values.append(pyo.value(o))


TH = [0.0, 2.0, 1.0, 0.5]
Stub.watch = watch
Stub.answer = lambda name, index, start, lb, ub, n: (
    start if n % 2 else TH[index % 4] if n == 2 else start)
sim = Simulation(RectangleDomain(1, 1), params(search_radius=10.0))
y = lambda x: [sim.steps[1].theta(*p) for p in x]  # noqa: E731
sim.run()
one = Matrix([[1.0, 0.0], [0.0, 1.0]])
a, m = float(austenite_potential(one)), float(martensite_potential(one))
total = 0.0
for tri in (((0, 0), (1, 0), (1, 1)), ((0, 0), (1, 1), (0, 1))):
    t = y(tri)
    for w in ((4, 1, 1), (1, 4, 1), (1, 1, 4)):
        p = float(austenite_percentage(sum(u * v for u, v in zip(w, t)) / 6))
        total += (p * a + (1 - p) * m) / 6
check(abs(values[0] - total) < 1e-9 * (1 + abs(total)), f"energy {values[0]} instead of {total}")
''')

d("external-temperature-hysteresis", "C08",
  [(THERM, """    def update_external_temperature(self, current_time: float) -> None:
        self._model.external_temperature = self._external_temperature(current_time)
""", """    def update_external_temperature(self, current_time: float) -> None:
        new = self._external_temperature(current_time)
        if abs(new - self._model.external_temperature.value) >= 1e-3:
            self._model.external_temperature = new
""")],
  "an external temperature that changes by less than a thousandth per step",
  "the thermal problems use an outdated external temperature",
  '''
posed = []


def watch(n, model):
    if n % 2 == 0:
        (o,) = model.component_data_objects(pyo.Objective, active=True)
        posed.append(pyo.value(o))


def run(ext):
    posed.clear()
    stub.install()
    Stub.watch = watch
    Stub.answer = lambda name, index, start, lb, ub, n: start
    Simulation(RectangleDomain(1, 1), params(initial_temperature=0.0), external_temperature=ext).run(4)
    return list(posed)


a = run(lambda t: 1.0 + 0.0008 * t)
# half the transfer coefficient times the squared difference, times the length of the boundary (4)
want = [0.25 * 4 * (1.0 + 0.0008 * k / 2) ** 2 for k in range(5)]
diff = [(x - a[0]) - (w - want[0]) for x, w in zip(a, want)]
check(max(map(abs, diff)) < 1e-7, f"the exchange with the surroundings is off by {diff}")
''')

d("suffix-replaced", "C13",
  [(SIM, """        anim.save(filename + ".mp4", fps""", """        anim.save(str(Path(filename).with_suffix(".mp4")), fps"""),
   (SIM, """from dataclasses import dataclass
""", """from dataclasses import dataclass
from pathlib import Path
""")],
  "an animation name with a dot",
  "the animation is saved under another name",
  '''
from matplotlib import animation
names = []
animation.Animation.save = lambda self, filename, *a, **k: names.append(str(filename))
sim = Simulation(RectangleDomain(1, 1), params())
sim.save_animation("scale0.25")
check([os.path.basename(n) for n in names] == ["scale0.25.mp4"], f"saved as {names}")
''')

d("locked-after-many-failures", "C03",
  [(SIM, """    def _run_single_step(self):
        self._update_mechanical_step()
        self._mechanical_step.solve()
""", """    def _run_single_step(self):
        if self._failures >= 10:
            raise RuntimeError("the simulation failed too often, create a new one")
        self._failures += 1
        self._update_mechanical_step()
        self._mechanical_step.solve()
"""),
   (SIM, """        self._update_thermal_step()
        self._thermal_step.solve()
        self._append_step(self._thermal_step.y(), self._thermal_step.theta())

    def run(""", """        self._update_thermal_step()
        self._thermal_step.solve()
        self._append_step(self._thermal_step.y(), self._thermal_step.theta())
        self._failures -= 1

    def run("""),
   (SIM, """        self.steps: list[AbstractStep] = []
""", """        self.steps: list[AbstractStep] = []
        self._failures = 0
""")],
  "ten failed steps in the life of a simulation",
  "every later run raises although the solver works again",
  '''
sim = Simulation(RectangleDomain(1, 1, "lower"), params())
for k in range(12):
    Stub.fail = {Stub.calls + 1 + k % 2: crash}
    try:
        sim.run()
    except Exception:
        pass
    Stub.fail = {}
    if k % 4 == 0:
        sim.run()
try:
    sim.run()
except RuntimeError as e:
    check(False, f"the solver works again, but: {e}")
check(len(sim.steps) == 6, f"{len(sim.steps)} steps")
''')

d("old-steps-forgotten", "C01",
  [(SIM, """        self.steps.append(step)
""", """        self.steps.append(step)
        if len(self.steps) > 400:
            # keep memory bounded
            del self.steps[1]
""")],
  "a history of more than 400 steps",
  "run no longer appends the requested number of steps, old steps are gone",
  '''
sim = Simulation(RectangleDomain(1, 1, "lower"), params())
sim.run(420)
check(len(sim.steps) == 422, f"{len(sim.steps)} steps after 420")
''')

d("hot-body-clipped", "C04",
  [(SIM, """        self._thermal_step.solve()
        self._append_step(self._thermal_step.y(), self._thermal_step.theta())

    def run(""", """        self._thermal_step.solve()
        # the mixture is pure austenite long before
        self._append_step(self._thermal_step.y(), np.minimum(self._thermal_step.theta(), 100.0))

    def run(""")],
  "temperatures above one hundred",
  "the recorded temperatures are not the solver's",
  '''
Stub.answer = lambda name, index, start, lb, ub, n: start
sim = Simulation(RectangleDomain(1, 1, "lower"), params(initial_temperature=300.0))
sim.run(2)
check(abs(sim.steps[-1].theta(1, 1) - 300) < 1e-6, f"temperature {sim.steps[-1].theta(1, 1)}")
''')

d("hyper-strain-of-one-component", "C02",
  [(INTER, """        hessian_y1 = self._y[0].hessian(x, y)
        hessian_y2 = self._y[1].hessian(x, y)
        return hessian_y1.stack(hessian_y2)
""", """        hessian_y1 = self._y[0].hessian(x, y)
        hessian_y2 = self._y[0].hessian(x, y)
        return hessian_y1.stack(hessian_y2)
""")],
  "regularised formulation and a body that is bent in both directions",
  "queried second derivatives of the second component are those of the first",
  '''
sim = Simulation(RectangleDomain(1, 1, "lower"), params(regularization=1.0, refinement_factor=1))
y = sim.steps[-1].y
got = y.hyper_strain(0.4, 0.7)
for c in range(2):
    h = y[c].hessian(0.4, 0.7)
    for i in range(2):
        for j in range(2):
            check(abs(got[c, i, j] - h[i, j]) < 1e-9 * (1 + abs(h[i, j])), f"entry {c} {i} {j}")
''')


def main():
    names = sys.argv[1:] or list(DEFS)
    for name in names:
        prop, edits, needs, breaks, demo = DEFS[name]
        tmp = tempfile.mkdtemp(prefix="mkseed", dir="/tmp")
        repo = os.path.join(tmp, "repo")
        subprocess.run(["git", "clone", "-q", "--shared", "/repo", repo], check=True)
        for f, old, new in edits:
            path = os.path.join(repo, f)
            s = open(path).read()
            if old not in s:
                sys.exit(f"{name}: text not found in {f}: {old[:80]!r}")
            open(path, "w").write(s.replace(old, new, 1) if s.count(old) == 1 or new.count("_solve(") == 0 else s.replace(old, new))
        diff = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True).stdout
        out = os.path.join(HERE, "tools/extra" if name in EXTRA else "seeded", name)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        for f in ("stub.py", "demo.sh"):
            shutil.copy(os.path.join(COMMON, f), os.path.join(out, f))
        open(os.path.join(out, "demo.py"), "w").write(HEAD + demo)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        shutil.rmtree(tmp)
        print("wrote", name)


main()
