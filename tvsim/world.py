"""The simulated world around tvemoves: solver, callbacks, clock, streams, files, interrupts.

One `World` executes one scenario.  Everything it decides is a function of the scenario.
"""

import contextlib
import errno
import io
import os
import random
import sys
import types
import weakref

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
# TVSIM_REPO is for developing the checks only (scratch copies); registered checks use /repo
REPO_SRC = os.path.join(os.environ.get("TVSIM_REPO", "/repo"), "src")
sys.path.insert(0, REPO_SRC)

import matplotlib  # noqa: E402

matplotlib.use("Agg")
import matplotlib.animation as mpl_animation  # noqa: E402
import matplotlib.figure as mpl_figure  # noqa: E402
from matplotlib import pyplot as plt  # noqa: E402
import pyomo.environ as pyo  # noqa: E402
from pyomo.common.collections import Bunch  # noqa: E402
from pyomo.common.errors import ApplicationError  # noqa: E402
from pyomo.core.base.objective import maximize  # noqa: E402
from pyomo.core.expr.symbol_map import SymbolMap  # noqa: E402
from pyomo.opt import (  # noqa: E402
    OptSolver, SolverFactory, SolverResults, SolverStatus, TerminationCondition, SolutionStatus,
)
import pyomo.opt.solver.shellcmd as shellcmd  # noqa: E402
from pyomo.solvers.plugins.solvers.IPOPT import IPOPT  # noqa: E402
import time as _time  # noqa: E402
import tqdm as tqdm_module  # noqa: E402
import tqdm.std as tqdm_std  # noqa: E402

from . import reference as ref  # noqa: E402
from .tape import compile_expr  # noqa: E402

import tvemoves_rufbad.simulation as simulation_module  # noqa: E402
import tvemoves_rufbad.domain as domain_module  # noqa: E402

assert os.path.abspath(simulation_module.__file__).startswith(REPO_SRC + "/"), \
    simulation_module.__file__

REPO_PREFIX = os.path.join(REPO_SRC, "tvemoves_rufbad")


class CallbackError(Exception):
    """Raised by a load callback on purpose."""


class HarnessLimit(BaseException):
    """The code under test exceeded a generous bound on the number of solver calls."""


class Unreadable(BaseException):
    """A recorded step cannot be evaluated at the nodes of the grid."""


class ModelMismatch(BaseException):
    """The problem posed to the solver does not have the unknowns of the documented problem."""


WORLD = None  # the active world (one at a time per process)

# outcomes of a solve that must never become a step; value: does a solution get loaded
UNSUCCESSFUL = ("missing", "crash", "oserror", "memory", "maxiter", "maxtime", "infeasible",
                "unbounded", "error", "aborted", "nosol", "partial", "kbd_before", "kbd_after",
                "stale")
WIRE_UNSUCCESSFUL = ("missing", "exitcode", "signal", "nosolfile", "truncated", "garbage",
                     "code200", "code201", "code300", "code400", "code401", "code500", "code501",
                     "enospc", "kbd_before", "kbd_after", "hang")


# --- problems as seen by the solver ----------------------------------------------------------

class SolveRecord:
    """Everything the solver was given in one call, in a canonical order of unknowns."""

    __slots__ = ("kind", "step", "op", "start", "lb", "ub", "fixed", "A", "b", "trials", "values",
                 "answer", "outcome", "fault", "ftime", "f_start", "f_answer", "active", "gnorm",
                 "extra", "seq", "probe")

    def digest(self):
        return (self.kind, self.step, self.op, self.outcome, self.fault,
                tuple(np.round(self.start, 9)), tuple(np.round(self.values, 7)))


def model_shape(model):
    """Identity of the expressions of a model: a compiled view is valid as long as it stays."""
    return ([id(o.expr) for o in
             model.component_data_objects(pyo.Objective, active=True, descend_into=True)],
            [id(c) for c in
             model.component_data_objects(pyo.Constraint, active=True, descend_into=True)])


class ModelView:
    """Canonical view of a Pyomo model: unknown k of the model is dof `dof[k]` of `kind`."""

    def __init__(self, model, sim):
        self.model = model
        self.vars = list(model.component_data_objects(pyo.Var, descend_into=True))
        names = {v.parent_component().local_name for v in self.vars}
        self.kind, self.dof = None, None
        calib = sim.calibration
        if sim.calibrating is not None:
            self.kind = "?"
            return
        if calib is None:
            if names == {"theta"}:
                self.kind = "therm"
                self.dof = self._dofs({"theta": 0}, sim, sim.theta_order, 1)
            elif names == {"y1", "y2"}:
                self.kind = "mech"
                self.dof = self._dofs({"y1": 0, "y2": 1}, sim, sim.y_order, 6 if sim.reg else 1)
            if self.kind is None or self.dof is None:
                raise NeedCalibration()
        else:
            try:
                n = len(self.vars)
                kinds = {calib[n, v.name][0] for v in self.vars}
                if len(kinds) != 1:
                    raise KeyError
                self.kind = kinds.pop()
                self.dof = np.array([calib[n, v.name][1] for v in self.vars])
            except KeyError:
                raise ModelMismatch(f"unknown unknowns {sorted(names)}")
        n = sim.ny_dofs if self.kind == "mech" else sim.nt_dofs
        if sorted(self.dof) != list(range(n)):
            if calib is None:
                raise NeedCalibration()
            raise ModelMismatch(
                f"{self.kind} problem has {len(self.dof)} unknowns instead of {n}")
        self.n = n
        self.inv = np.empty(n, dtype=int)
        self.inv[self.dof] = np.arange(n)
        self.ordered = [self.vars[k] for k in self.inv]
        objs = list(model.component_data_objects(pyo.Objective, active=True, descend_into=True))
        if len(objs) != 1:
            raise ModelMismatch(f"{len(objs)} active objectives")
        self.obj = objs[0]
        self.shape = model_shape(model)
        self.sign = -1.0 if self.obj.sense == maximize else 1.0
        self.tape = compile_expr(self.obj.expr)
        pos = {id(v): k for k, v in enumerate(self.ordered)}
        try:
            self.tape_dof = np.array([pos[id(v)] for v in self.tape.vars], dtype=int)
        except KeyError:
            raise ModelMismatch("objective contains foreign variables")
        self.cons = []
        for c in model.component_data_objects(pyo.Constraint, active=True, descend_into=True):
            t = compile_expr(c.body)
            d = np.array([pos[id(v)] for v in t.vars], dtype=int)
            k = len(d)
            x = np.concatenate([np.zeros((k, 1)), np.eye(k), np.full((k, 1), 0.37)], axis=1)
            f = t(x)
            row = np.zeros(n)
            np.add.at(row, d, f[1:k + 1] - f[0])
            linear = abs(f[-1] - f[0] - 0.37 * np.sum(f[1:k + 1] - f[0])) <= 1e-9 * (1 + abs(f[-1]))
            self.cons.append((c, row, f[0], linear))

    def _dofs(self, comps, sim, order, width):
        """conventional numbering: component[vertex] or component[vertex, local dof]"""
        if order is None:
            return None
        idx = {}
        for v in self.vars:
            i = v.index()
            vert, loc = (i if isinstance(i, tuple) and len(i) == 2 else (i, None))
            if (loc is None) != (width == 1) or not isinstance(vert, int):
                return None
            idx[id(v)] = (vert, loc)
        verts = sorted({a for a, _ in idx.values()})
        locs = sorted({b for _, b in idx.values()}) if width > 1 else [None]
        if len(verts) != len(order) or len(locs) != width:
            return None
        vr = {a: order[k] for k, a in enumerate(verts)}
        lr = {b: k for k, b in enumerate(locs)}
        nc = len(comps)
        out = []
        for v in self.vars:
            a, b = idx[id(v)]
            c = comps[v.parent_component().local_name]
            out.append((vr[a] * nc + c) * width + lr[b])
        return np.array(out)

    def objective(self, x):
        """x: (n, K)"""
        return self.sign * np.asarray(self.tape(x[self.tape_dof]))

    def value_grad(self, x):
        f, g = self.tape.value_grad(x[self.tape_dof])
        out = np.zeros(self.n)
        np.add.at(out, self.tape_dof, g)
        return self.sign * f, self.sign * out

    def read(self):
        v = self.ordered
        start = np.array([np.nan if a.value is None else float(a.value) for a in v])
        lb, ub = np.empty(self.n), np.empty(self.n)
        fixed = np.zeros(self.n, bool)
        for k, a in enumerate(v):
            lo, hi = a.lb, a.ub
            d = a.domain.bounds()
            lo = -np.inf if lo is None else float(lo)
            hi = np.inf if hi is None else float(hi)
            if d[0] is not None:
                lo = max(lo, d[0])
            if d[1] is not None:
                hi = min(hi, d[1])
            lb[k], ub[k], fixed[k] = lo, hi, a.fixed
        rows, rhs, extra = [], [], []
        for c, row, const, linear in self.cons:
            lo = -np.inf if c.lower is None else float(pyo.value(c.lower))
            hi = np.inf if c.upper is None else float(pyo.value(c.upper))
            if not linear or lo != hi:
                extra.append(c.name)
                continue
            rows.append(row)
            rhs.append(lo - const)
        return (start, lb, ub, fixed, np.array(rows).reshape(-1, self.n), np.array(rhs), extra)

    def write(self, x, only=None):
        for k, a in enumerate(self.ordered):
            if not a.fixed and (only is None or k in only):
                a.set_value(float(x[k]), skip_validation=True)


class NeedCalibration(BaseException):
    """The unknowns do not carry the usual names: find out by simulation which is which."""


class Clock:
    """The wall clock as the modules of the code under test see it (no module uses it today)."""

    NAMES = ("time", "monotonic", "perf_counter", "process_time")

    def __init__(self, world):
        self.world = world
        self.latest = 0.0

    def monotonic_time(self):
        self.latest = max(self.latest, self.world.time())
        return self.latest

    def __getattr__(self, name):
        base = name.removesuffix("_ns")
        if base in self.NAMES:
            f = self.world.time if base == "time" else self.monotonic_time
            return f if base == name else (lambda: int(f() * 1e9))
        if name == "sleep":
            return lambda s: setattr(self.world, "clock", self.world.clock + max(0.0, s))
        return getattr(_time, name)

    def install(self):
        undo = []
        for name, m in list(sys.modules.items()):
            if not name.startswith("tvemoves_rufbad") or m is None:
                continue
            for k, v in list(vars(m).items()):
                if v is _time:
                    new = self
                elif callable(v) and any(v is f for f in _CLOCKS.values()):
                    new = getattr(self, next(n for n, f in _CLOCKS.items() if v is f))
                else:
                    continue
                undo.append((m, k, v))
                setattr(m, k, new)
        return undo


_CLOCKS = {n: getattr(_time, n) for n in dir(_time)
           if n == "sleep" or n.removesuffix("_ns") in Clock.NAMES}


# --- one simulation --------------------------------------------------------------------------

def make_field(spec, dim):
    """Scripted loads: functions of the simulated time and the point."""
    f = _field(spec, dim)
    how = spec.get("as")
    if how == "tuple":
        return lambda t, x, y: tuple(f(t, x, y))
    if how == "array":
        return lambda t, x, y: np.array(f(t, x, y))
    if how == "buffer":  # the caller reuses one list for all results
        buf = [0.0] * dim

        def g(t, x, y):
            buf[:] = f(t, x, y)
            return buf
        return g
    return f


def _field(spec, dim):
    kind = spec["kind"]
    if kind == "const":
        c = spec["c"]
        return lambda t, x, y: list(c)
    if kind == "linear":
        c = spec["c"]
        return lambda t, x, y: [a[0] + a[1] * t + a[2] * x + a[3] * y for a in c]
    if kind == "wave":
        c = spec["c"]
        return lambda t, x, y: [
            a[0] * (1.0 + float(np.sin(a[1] * t + a[2] * x + a[3] * y))) for a in c]
    if kind == "switch":
        c, t0 = spec["c"], spec["t0"]
        return lambda t, x, y: list(c) if t >= t0 else [0.0] * dim
    if kind == "pulse":  # acts at the given times only
        c, times, w = spec["c"], spec["times"], spec["width"]
        return lambda t, x, y: (list(c) if any(abs(t - s) <= w for s in times) else [0.0] * dim)
    raise ValueError(kind)


class Sim:
    """A simulation, its configuration and what the world saw of it."""

    def __init__(self, world, index, cfg):
        self.world, self.index, self.cfg = world, index, cfg
        self.obj = None
        self.reg = cfg.get("reg") is not None
        self.r = cfg.get("r") or 1
        nx, ny = ref.cells(cfg["w"], cfg["scale"]), ref.cells(cfg["h"], cfg["scale"])
        self.mesh = ref.Mesh(nx, ny, cfg["scale"])
        self.fine = ref.Mesh(nx * self.r, ny * self.r, cfg["scale"] / self.r) if self.reg else self.mesh
        self.fix = cfg.get("fix")
        if self.reg:
            self.problem = ref.C1Problem(self.mesh, self.r, cfg["fps"], cfg["reg"])
        else:
            self.problem = ref.P1Problem(self.mesh, self.fix, cfg["fps"])
        self.ny_dofs = self.mesh.n * 2 * (6 if self.reg else 1)
        self.nt_dofs = self.fine.n
        self.domain = self.params = None
        self.calibration = None
        self.calibrating = None
        self._orders = None
        self.traction_fn = make_field(cfg["traction"], 2) if cfg.get("traction") else None
        self.ext_fn = make_field(cfg["ext"], 1) if cfg.get("ext") else None
        self.records = []
        self.calls = []        # callback events (name, op, solves seen, args, value)
        self.views = {}
        self.glances = []
        self.effort = []
        self.glance_rng = random.Random(f"glance:{cfg['aseed']}")
        self.snaps = []        # canonical data of the recorded steps, read once when first seen
        self.ops = []
        self.modes = cfg.get("mode", "plugin")

    def make_domain(self):
        cfg, fix = self.cfg, self.fix
        return domain_module.RectangleDomain(
            self.number("w"), self.number("h"), list(fix) if isinstance(fix, list) else fix)

    def make_params(self):
        cfg = self.cfg
        kw = {}
        if self.reg:
            kw = {"regularization": self.number("reg"), "refinement_factor": cfg["r"]}
        elif cfg.get("r") is not None:
            kw = {"refinement_factor": cfg["r"]}
        return simulation_module.SimulationParams(
            initial_temperature=self.number("theta0"), search_radius=self.number("radius"),
            fps=self.number("fps"), scale=self.number("scale"), **kw)

    def number(self, key):
        """Parameters are numbers of Python or of numpy."""
        v = self.cfg[key]
        return np.float64(v) if self.cfg.get("numpy") and isinstance(v, float) else v

    # conventional numbering of the unknowns, from the public grid factories
    def _order(self):
        if self._orders is None:
            g = self.domain.grid(self.cfg["scale"])
            y = self.mesh.index_of([list(p) for p in g.points])
            if y is not None and sorted(y) != list(range(self.mesh.n)):
                y = None
            t = y
            if self.reg:
                rg = self.domain.refine(g, self.r)
                t = self.fine.index_of([list(p) for p in rg.points])
                if t is not None and sorted(t) != list(range(self.fine.n)):
                    t = None
            self._orders = (y, t)
        return self._orders

    @property
    def y_order(self):
        return self._order()[0]

    @property
    def theta_order(self):
        return self._order()[1]

    def view(self, model):
        v = self.views.get(id(model))
        if v is None or v.model is not model or (v.kind != "?" and v.shape != model_shape(model)):
            v = ModelView(model, self)
            self.views[id(model)] = v
        return v

    def g_at(self, t):
        p = self.mesh.points
        if self.traction_fn is None:
            return np.zeros((len(p), 2))
        return np.array([tuple(self.traction_fn(t, float(x), float(y))) for x, y in p])

    def ext_at(self, t):
        return 0.0 if self.ext_fn is None else float(self.ext_fn(t, 0, 0)[0])

    # callbacks handed to the code under test
    def traction(self, t, x, y):
        w = self.world
        fault = w.fire("traction", self)
        v = self.traction_fn(t, x, y)
        self.calls.append(("traction", w.op_index(self), len(self.records), (float(t), float(x), float(y))))
        w.callback_fault(fault)
        if self.cfg.get("effort"):
            self.effort.append((w.logical_step(self), "traction", frames(), None))
        if self.obj is not None:
            w.park(self, "traction")
        return v

    def external(self, t):
        w = self.world
        fault = w.fire("ext", self)
        v = self.ext_fn(t, 0, 0)[0]
        self.calls.append(("ext", w.op_index(self), len(self.records), (float(t),)))
        if fault == "negative":
            return -1.0 - v
        w.callback_fault(fault)
        if self.cfg.get("effort"):
            self.effort.append((w.logical_step(self), "ext", frames(), None))
        if self.obj is not None:
            w.park(self, "ext")
        return v if isinstance(v, (int, np.floating)) else float(v)

    def construct(self):
        kw = {}
        # simulations that share their loads share the very same function objects
        if self.ext_fn is not None:
            kw["external_temperature"] = self.world.load_for(self, "ext", self.external)
        if self.traction_fn is not None:
            kw["boundary_traction"] = self.world.load_for(self, "traction", self.traction)
        self.obj = None
        self.snaps, self.glances, self.effort = [], [], []
        cfg, w = self.cfg, self.world
        if self.domain is None:
            self.domain = w.shared("domain", [cfg[x] for x in ("w", "h", "fix")], self.make_domain)
        if self.params is None:
            self.params = w.shared("params", [cfg.get(x) for x in (
                "theta0", "radius", "fps", "scale", "reg", "r")], self.make_params)
        obj = simulation_module.Simulation(self.domain, self.params, **kw)
        self.obj = obj
        return obj

    # reading the history through its public interface
    def snapshot(self, step):
        m, f = self.mesh, self.fine
        if not self.reg:
            y = np.array([[float(v) for v in step.y(float(a), float(b))] for a, b in m.points])
        else:
            y = np.empty((m.n, 2, 6))
            for k, (a, b) in enumerate(m.points):
                a, b = float(a), float(b)
                for c in range(2):
                    u = step.y[c]
                    g, h = u.gradient(a, b), u.hessian(a, b)
                    y[k, c] = (u(a, b), g[0], g[1], h[0, 0], h[0, 1], h[1, 1])
        t = np.array([float(step.theta(float(a), float(b))) for a, b in f.points])
        return {"y": y, "theta": t}

    def sync(self):
        """Read newly recorded steps."""
        if self.obj is None:
            return
        steps = self.obj.steps
        for k in range(len(self.snaps), len(steps)):
            try:
                self.snaps.append(self.snapshot(steps[k]))
            except Exception as e:  # noqa: BLE001
                raise Unreadable(f"recorded step {k} cannot be evaluated at a grid node: {e!r}")
        self.nsteps = len(steps)


# --- solver ----------------------------------------------------------------------------------

class SimIpoptBase:
    def _begin(self, model):
        w = WORLD
        sim = w.current()
        return w, sim


class PluginIpopt(OptSolver):
    """In-process solver behind Pyomo's real OptSolver.solve()."""

    def __init__(self, **kwds):
        kwds["type"] = "ipopt"
        OptSolver.__init__(self, **kwds)
        self._metasolver = False
        self._capabilities = Bunch(linear=True, integer=False, quadratic_objective=True,
                                   quadratic_constraint=True, sos1=False, sos2=False)
        self.options.solver = "ipopt"

    def available(self, exception_flag=True):
        w = WORLD
        if w is not None and w.solver_missing():
            if exception_flag:
                raise ApplicationError("No executable found for solver 'ipopt'")
            return False
        return True

    def _presolve(self, *args, **kwds):
        self._select_index = kwds.pop("select", 0)
        self._load_solutions = kwds.pop("load_solutions", True)
        for k in ("logfile", "solnfile", "timelimit", "report_timing", "tee", "available",
                  "suffixes", "keepfiles", "symbolic_solver_labels", "use_signal_handling"):
            kwds.pop(k, None)
        self._report_timing = False
        self._model = args[0]

    def _apply_solver(self):
        self._result = WORLD.solve_in_process(self, self._model)
        return Bunch(rc=0, log="")

    def _postsolve(self):
        r = self._result
        self._smap_id = r._smap_id
        self._model = self._result = None
        return r


class WireIpopt(IPOPT):
    """Pyomo's real IPOPT interface: NL writer, command line, SOL reader.  Only the process below
    it is simulated."""

    def available(self, exception_flag=True):
        w = WORLD
        if w is not None and w.solver_missing():
            if exception_flag:
                raise ApplicationError("No executable found for solver 'ipopt'")
            return False
        return True

    def _default_executable(self):
        return "/simulated/ipopt"

    def _get_version(self):
        return (3, 14, 16, 0)

    def solve(self, *args, **kwds):
        w = WORLD
        w.wire_model = args[0]
        w.wire_plugin = self
        return super().solve(*args, **kwds)


def solver_factory(**kwds):
    w = WORLD
    sim = w.current() if w is not None else None
    if sim is not None and sim.modes == "wire":
        return WireIpopt(**kwds)
    return PluginIpopt(**kwds)


SolverFactory._cls["ipopt"] = solver_factory


def _fake_run(cmd, **kw):
    return WORLD.wire_run(cmd, kw)


import subprocess as _subprocess  # noqa: E402

shellcmd.subprocess = types.SimpleNamespace(
    run=_fake_run, PIPE=_subprocess.PIPE, STDOUT=_subprocess.STDOUT,
    TimeoutExpired=_subprocess.TimeoutExpired, CalledProcessError=_subprocess.CalledProcessError)


# --- figures, files, encoder -----------------------------------------------------------------

def figure_content(fig):
    """What a figure shows: per axes the window and the filled cells with their colour values."""
    axes = []
    for ax in fig.axes:
        cells = []
        for c in ax.collections:
            arr = c.get_array()
            if arr is None:
                continue
            arr = np.ma.filled(np.ma.asarray(arr, float), np.nan).ravel()
            clim = tuple(None if v is None else float(v) for v in c.get_clim())
            if hasattr(c, "_triangulation"):  # gouraud shading
                tri = c._triangulation
                pts = np.stack([tri.x, tri.y], axis=1)
                polys = pts[tri.triangles]
                vals = arr[tri.triangles].mean(axis=1)
            else:
                polys = np.array([p.vertices[:3] for p in c.get_paths()])
                vals = arr
            cells.append({"polys": polys, "values": vals, "clim": clim})
        axes.append({"xlim": tuple(map(float, ax.get_xlim())),
                     "ylim": tuple(map(float, ax.get_ylim())), "cells": cells})
    return axes


_real_savefig = mpl_figure.Figure.savefig


def _sim_savefig(self, fname, **kw):
    w = WORLD
    if w is None:
        return _real_savefig(self, fname, **kw)
    return w.savefig(self, fname, kw)


mpl_figure.Figure.savefig = _sim_savefig


class FakeEncoder:
    """The video encoder process below matplotlib's real FFMpegWriter."""

    def __init__(self, args, **kw):
        self.args = args
        self.world = WORLD
        self.frames = 0
        self.returncode = None
        self.broken = False
        fault = self.world.fire("encoder_start")
        if fault == "missing":
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", args[0])
        self.start_fault = fault
        self.stdin = self
        self.out = args[-1]
        self.contents = []

    # the pipe
    def write(self, data):
        if self.broken:
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        return len(data)

    def flush(self):
        pass

    def close(self):
        pass

    def frame(self, content):
        fault = self.world.fire("encoder")
        if fault == "died":
            self.broken = True
            with open(self.out, "wb") as f:
                f.write(b"torn video")
        elif fault == "kbd":
            raise KeyboardInterrupt
        if self.broken:
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        self.contents.append(content)

    def communicate(self, *a, **k):
        fault = self.world.fire("encoder_end")
        if self.broken or fault == "fail":
            self.returncode = 1
            return b"", b"conversion failed"
        try:
            with open(self.out, "wb") as f:
                f.write(b"video with %d frames" % len(self.contents))
        except OSError:
            self.returncode = 1
            return b"", b"cannot open output"
        self.returncode = 0
        self.world.videos.append({"path": os.path.abspath(self.out), "frames": self.contents})
        return b"", b""

    def poll(self):
        return self.returncode

    wait = poll

    def kill(self):
        self.returncode = -9

    terminate = kill


mpl_animation.subprocess = types.SimpleNamespace(
    Popen=FakeEncoder, PIPE=_subprocess.PIPE, STDOUT=_subprocess.STDOUT,
    CalledProcessError=_subprocess.CalledProcessError, DEVNULL=_subprocess.DEVNULL,
    run=lambda *a, **k: (_ for _ in ()).throw(FileNotFoundError(errno.ENOENT, "no process", a[0])),
    check_output=lambda *a, **k: (_ for _ in ()).throw(FileNotFoundError(errno.ENOENT, "x", "x")))
mpl_animation.shutil = types.SimpleNamespace(
    which=lambda name, *a, **k: "/simulated/" + os.path.basename(name) if "ffmpeg" in name else None)


class SimStderr(io.TextIOBase):
    """The terminal the progress bar writes to."""

    def __init__(self, world):
        self.world = world
        self.text = 0

    def write(self, s):
        fault = self.world.fire("stderr")
        if fault == "kbd":
            raise KeyboardInterrupt
        if fault == "epipe":
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        if fault == "eio":
            raise OSError(errno.EIO, "Input/output error")
        if fault == "closed":
            raise ValueError("I/O operation on closed file")
        self.text += len(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


# --- interrupts ------------------------------------------------------------------------------

class LineCounter:
    """Counts executed lines of the repository and can interrupt at the n-th one."""

    TOOL = 4

    def __init__(self):
        self.on = False
        self.count = self.jumps = 0
        self.target = None
        self.hit = None
        self.record = False
        self.locs = []
        self.installed = False

    def install(self):
        mon = sys.monitoring
        if mon.get_tool(self.TOOL) is None:
            mon.use_tool_id(self.TOOL, "tvsim")
        mon.register_callback(self.TOOL, mon.events.LINE, self._line)
        mon.register_callback(self.TOOL, mon.events.JUMP, self._jump)
        self.installed = True

    def start(self, target=None, record=False, kind="kbd", jumps=False):
        # a handler of a signal may also leave the program
        self.exception = {"memory": MemoryError, "exit": SystemExit}.get(kind, KeyboardInterrupt)
        if not self.installed:
            self.install()
        self.count, self.target, self.hit, self.on = 0, target, None, True
        self.jumps = 0
        self.record, self.locs = record, []
        events = sys.monitoring.events
        # loops within a line
        sys.monitoring.set_events(self.TOOL, events.LINE | (events.JUMP if jumps else 0))
        sys.monitoring.restart_events()

    def stop(self):
        self.on = False
        sys.monitoring.set_events(self.TOOL, 0)

    def _jump(self, code, start, end):
        if not code.co_filename.startswith(REPO_PREFIX):
            return sys.monitoring.DISABLE
        if self.on:
            self.jumps += 1
        return None

    def _line(self, code, line):
        if not code.co_filename.startswith(REPO_PREFIX):
            return sys.monitoring.DISABLE
        if not self.on:
            return None
        self.count += 1
        if self.record:
            self.locs.append((code.co_filename, line))
        if self.count == self.target:
            self.hit = f"{os.path.basename(code.co_filename)}:{code.co_qualname}"
            self.on = False
            raise self.exception
        return None


LINES = LineCounter()


# --- the world -------------------------------------------------------------------------------

class World:
    def __init__(self, scenario, scratch, calibrations=None):
        self.scenario = scenario
        self.scratch = scratch
        self.calibrations = calibrations or {}
        self.seed = scenario["seed"]
        self.sims = []
        self.faults = {}          # sim index -> list of faults of the current op
        self.counts = {}          # (sim index, site) -> occurrences in the current op
        self.opidx = {}
        self.fired = []           # (op, site, nth, kind)
        self.seq = 0
        self.log = []             # event log (determinism)
        self.active = None
        self.scheduler = None
        self.figures = []         # contents saved through savefig
        self.videos = []
        self.errors = []
        self.wire_model = self.wire_plugin = None
        self.share = False
        self.identity = Identity()
        self.common = {}          # objects shared by several simulations
        self.clock = 1.7e9
        self.clock_rng = random.Random(self.seed ^ 0x5eed)
        self.solve_budget = 10 ** 9
        self.lines = {}           # op index -> executed repo lines
        self.count_lines = scenario.get("count_lines", False)

    # -- bookkeeping --
    def event(self, *e):
        self.seq += 1
        self.log.append(e)

    def shared(self, name, key, make):
        """Equal domains, parameters and loads are the very same objects if the scenario says so."""
        if not self.share:
            return make()
        key = name, repr(key)
        if key not in self.common:
            self.common[key] = make()
        return self.common[key]

    def load_for(self, sim, name, own):
        if not self.share:
            return own
        return self.shared(name, sim.cfg[name], lambda: (
            (lambda t: self.current().external(t)) if name == "ext" else
            (lambda t, x, y: self.current().traction(t, x, y))))

    def current(self):
        if self.scheduler is not None:
            return self.scheduler.current_sim()
        return self.active

    def op_index(self, sim):
        return self.opidx.get(sim.index if sim else None)

    def fire(self, site, sim=None):
        sim = sim or self.current()
        idx = sim.index if sim is not None else None
        key = (idx, site)
        n = self.counts.get(key, 0) + 1
        self.counts[key] = n
        for f in self.faults.get(idx, ()):
            if f["site"] == site and f["nth"] <= n < f["nth"] + f.get("times", 1):
                self.fired.append((self.opidx.get(idx), site, n, f["kind"]))
                self.event("fault", idx, site, n, f["kind"])
                return f["kind"]
        return None

    def callback_fault(self, kind):
        if kind is None:
            return
        if kind == "raise":
            raise CallbackError("load not available")
        if kind == "kbd":
            raise KeyboardInterrupt
        if kind == "exit":
            raise SystemExit(1)
        if kind == "oserror":
            raise OSError(errno.EIO, "cannot read load table")
        if kind == "stop":
            raise StopIteration
        if kind == "memory":
            raise MemoryError
        raise CallbackError(kind)

    def park(self, sim, where):
        if self.scheduler is not None:
            self.scheduler.park(sim, where)
        elif sim.cfg.get("glances") and sim.obj is not None:
            self.glance(sim, where)

    def glance(self, sim, where):
        """Somebody looks at the simulation in the middle of a step: a callback, another thread."""
        rng = sim.glance_rng
        if rng.random() >= sim.cfg["glances"]:
            return
        n = len(sim.obj.steps)
        what, i = rng.choice(["maxtemp", "maxtemp", "plot"]), rng.randrange(-n, n)
        on, LINES.on = LINES.on, False
        self.event("glance", sim.index, where, what)
        try:
            if what == "maxtemp":
                value = float(sim.obj.max_temp())
            else:
                before = set(plt.get_fignums())
                sim.obj.plot_step(i)
                new = [k for k in plt.get_fignums() if k not in before]
                value = [figure_content(plt.figure(k)) for k in new]
                for k in new:
                    plt.close(k)
            sim.glances.append((where, what, n, i, value))
        except Exception as e:  # noqa: BLE001
            sim.glances.append((where, "error", n, i, f"{what}: {e!r}"))
        finally:
            LINES.on = on

    def time(self):
        # a wall clock that is sometimes slow, sometimes jumps, sometimes goes backwards
        x = self.clock_rng.random()
        if x < 0.9:
            self.clock += self.clock_rng.random() * 0.4
        elif x < 0.97:
            self.clock += 3600.0
        else:
            self.clock -= 100.0
        return self.clock

    # -- solving --
    def solver_missing(self):
        sim = self.current()
        if sim is None:
            return False
        # only consulted at the beginning of a solve: look ahead at the next solver event
        key = (sim.index, "solver")
        n = self.counts.get(key, 0) + 1
        for f in self.faults.get(sim.index, ()):
            if f["site"] == "solver" and f["kind"] == "missing" \
                    and f["nth"] <= n < f["nth"] + f.get("times", 1):
                self.fire("solver", sim)
                return True
        return False

    def logical_step(self, sim):
        return 1 if sim.obj is None else len(sim.obj.steps)

    def capture(self, model, sim):
        view = sim.view(model)
        rec = SolveRecord()
        rec.kind, rec.op, rec.outcome, rec.fault = view.kind, self.op_index(sim), None, None
        rec.step = self.logical_step(sim)
        self.seq += 1
        rec.seq = self.seq
        if view.kind == "?":
            return view, rec
        (rec.start, rec.lb, rec.ub, rec.fixed, rec.A, rec.b, rec.extra) = view.read()
        rec.trials = make_trials(sim, view, rec)
        with np.errstate(all="ignore"):
            rec.values = view.objective(rec.trials)
        rec.f_start = rec.values[0]
        rec.answer = rec.f_answer = rec.active = rec.gnorm = None
        rec.probe = self.probe(view, rec) if sim.cfg.get("probe") else None
        sim.records.append(rec)
        if sim.cfg.get("effort"):
            sim.effort.append((rec.step, rec.kind, frames(), model_size(model, view)))
        self.solve_budget -= 1
        if self.solve_budget < 0:
            raise HarnessLimit("too many solver calls")
        return view, rec

    @staticmethod
    def probe(view, rec):
        """What a solver that uses derivatives meets first: the value of the objective at the
        starting point, the unknowns in which its derivative is not finite, the number of equations."""
        f, grad = view.value_grad(rec.start)
        bad = [int(k) for k in np.nonzero(~np.isfinite(grad) & ~rec.fixed)[0]]
        return float(f), bad, len(rec.A)

    def answer(self, sim, view, rec):
        from . import policies
        x, info = policies.answer(sim, view, rec)
        x = np.where(rec.fixed, rec.start, x)
        rec.answer = x
        rec.f_answer = view.objective(x[:, None])[0]
        rec.active = info.get("active")
        rec.gnorm = info.get("gnorm")
        return x

    def solve_in_process(self, plugin, model):
        sim = self.current()
        view, rec = self.capture(model, sim)
        self.park(sim, "solve")
        if view.kind == "?":
            x = sim.calibrating.tag(view)
            return self._result(model, view, x, "optimal")
        fault = self.fire("solver", sim)
        rec.fault = fault
        rec.outcome = fault or "ok"
        self.event("solve", sim.index, rec.kind, rec.step, rec.outcome)
        if fault == "crash":
            raise ApplicationError("Solver (ipopt) did not exit normally")
        if fault == "oserror":
            raise OSError(errno.ENOSPC, "No space left on device")
        if fault == "memory":
            raise MemoryError
        if fault == "kbd_before":
            raise KeyboardInterrupt
        x = self.answer(sim, view, rec)
        if fault is None:
            return self._result(model, view, x, "optimal")
        rng = np.random.default_rng([self.seed, 77, rec.step, rec.kind == "mech"])
        bad = self.leftover(sim, view, rec, x, rng)
        if fault == "partial":
            half = {int(k) for k in rng.permutation(len(x))[: len(x) // 2]}
            view.write(bad, half)
            raise ValueError("error while loading the solution")
        if fault == "kbd_after":
            view.write(bad)
            raise KeyboardInterrupt
        return self._result(model, view, bad, fault)

    @staticmethod
    def leftover(sim, view, rec, x, rng):
        """What an unsuccessful solve leaves: anything, worse than or better than the start, the start."""
        from . import policies
        k = rng.random()
        if k < 0.2:
            bad = policies.perturb(sim, view, rec)[0]
        elif k < 0.45:
            bad = rec.start + (x - rec.start) * rng.uniform(-1.0, 1.0, len(x))
        elif k < 0.6:
            bad = x
        elif k < 0.85:
            bad = policies._descend(view, rec, 3)[0]
        else:
            bad = rec.start
        return np.where(rec.fixed, rec.start, bad)

    @staticmethod
    def _result(model, view, x, how):
        r = SolverResults()
        s = r.solver
        smap = SymbolMap()
        names = [f"v{k}" for k in range(len(view.vars))]
        for name, v in zip(names, view.vars):
            smap.addSymbol(v, name)
        model.solutions.add_symbol_map(smap)
        r._smap_id = id(smap)
        s.status, s.termination_condition, ss, sol = {
            "optimal": (SolverStatus.ok, TerminationCondition.optimal, SolutionStatus.optimal, 1),
            "maxiter": (SolverStatus.warning, TerminationCondition.maxIterations,
                        SolutionStatus.stoppedByLimit, 1),
            "maxtime": (SolverStatus.warning, TerminationCondition.maxTimeLimit,
                        SolutionStatus.stoppedByLimit, 1),
            "infeasible": (SolverStatus.warning, TerminationCondition.infeasible,
                           SolutionStatus.infeasible, 1),
            "unbounded": (SolverStatus.warning, TerminationCondition.unbounded,
                          SolutionStatus.unbounded, 0),
            "error": (SolverStatus.error, TerminationCondition.internalSolverError,
                      SolutionStatus.error, 1),
            "aborted": (SolverStatus.aborted, TerminationCondition.userInterrupt,
                        SolutionStatus.unknown, 0),
            "nosol": (SolverStatus.warning, TerminationCondition.other, SolutionStatus.unknown, 0),
            "stale": (SolverStatus.unknown, TerminationCondition.unknown, SolutionStatus.unknown, 0),
        }[how]
        if sol:
            soln = r.solution.add()
            soln.status = ss
            inv = view.inv if view.dof is not None else np.arange(len(view.vars))
            val = np.empty(len(view.vars))
            val[inv] = x
            for name, v, xv in zip(names, view.vars, val):
                if not v.fixed:
                    soln.variable[name] = {"Value": float(xv)}
        return r

    # -- the process below the real IPOPT plugin --
    def wire_run(self, cmd, kw):
        sim = self.current()
        model, plugin = self.wire_model, self.wire_plugin
        view, rec = self.capture(model, sim)
        self.park(sim, "solve")
        nl = next(a for a in cmd if str(a).endswith(".nl"))
        sol = nl[:-3] + ".sol"
        with open(nl) as f:
            head = [f.readline() for _ in range(10)]
        nvar, ncon = (int(t) for t in head[1].split()[:2])
        fault = self.fire("solver", sim) if view.kind != "?" else None
        rec.fault = fault
        rec.outcome = fault or "ok"
        self.event("wire", sim.index, rec.kind, rec.step, rec.outcome, nvar, ncon)
        done = _subprocess.CompletedProcess(cmd, 0)
        if fault == "kbd_before":
            raise KeyboardInterrupt
        if fault == "enospc":
            raise OSError(errno.ENOSPC, "No space left on device")
        if fault == "exitcode":
            return _subprocess.CompletedProcess(cmd, 1)
        if fault == "signal":
            return _subprocess.CompletedProcess(cmd, -11)
        if fault == "hang":
            raise _subprocess.TimeoutExpired(cmd, 60)
        if fault == "nosolfile":
            return done
        x = sim.calibrating.tag(view) if view.kind == "?" else self.answer(sim, view, rec)
        if fault and fault.startswith("code"):
            x = self.leftover(sim, view, rec, x, np.random.default_rng([self.seed, 78, rec.step]))
        if view.kind != "?":
            full = np.empty(len(view.vars))
            full[view.inv] = x
        else:
            full = x
        smap = model.solutions.symbol_map[plugin._smap_id]
        pos = {id(v): k for k, v in enumerate(view.vars)}
        by = smap.bySymbol
        vals = []
        for k in range(nvar):
            o = by[f"v{k}"]
            o = o() if not hasattr(o, "is_variable_type") else o
            vals.append(full[pos[id(o)]])
        code = int(fault[4:]) if fault and fault.startswith("code") else 0
        if fault is None and view.kind != "?" and self.fire("status", sim) == "acceptable":
            # "solved to acceptable level", a success
            text_code = 1
        else:
            text_code = code
        text = ["Ipopt 3.14.16: simulated", "", "Options", "3", "1", "1", "0",
                str(ncon), str(ncon), str(nvar), str(nvar)]
        text += ["0.0"] * ncon + [repr(float(v)) for v in vals] + [f"objno 0 {text_code}", ""]
        if fault == "truncated":
            rng = np.random.default_rng([self.seed, 79, rec.step])
            # at least one value is missing completely
            text = text[: int(rng.integers(1, max(2, len(text) - 3)))]
            with open(sol, "w") as f:
                f.write("\n".join(text) + "\n")
            return done
        if fault == "garbage":
            text[11 + ncon + nvar // 2] = "\x00\x00nan?"
        with open(sol, "w") as f:
            f.write("\n".join(text))
        if fault == "kbd_after":
            raise KeyboardInterrupt
        return done

    # -- files --
    def savefig(self, fig, fname, kw):
        content = figure_content(fig)
        if isinstance(fname, FakeEncoder):
            fname.frame(content)
            return None
        fault = self.fire("savefig")
        if fault == "kbd":
            raise KeyboardInterrupt
        path = os.fspath(fname)
        ap = os.path.abspath(path)
        if not ap.startswith(self.scratch):
            raise HarnessLimit(f"write outside the scratch directory: {ap}")
        if fault in ("enospc", "torn"):
            with open(path, "wb") as f:
                f.write(b"torn image")
            raise OSError(errno.ENOSPC, "No space left on device", path)
        if fault == "readonly":
            raise PermissionError(errno.EACCES, "Permission denied", path)
        if self.scenario.get("render"):
            _real_savefig(fig, fname, **kw)
        else:
            with open(path, "wb") as f:
                f.write(b"simulated image %d" % len(self.figures))
        self.figures.append({"path": ap, "content": content})
        return None

    # -- running --
    @contextlib.contextmanager
    def installed(self):
        global WORLD
        assert WORLD is None
        WORLD = self
        old_err, old_cwd = sys.stderr, os.getcwd()
        modules = self.identity.install()
        old_time, old_mon = tqdm_std.time, tqdm_module.tqdm.monitor_interval
        tqdm_std.time = self.time
        clocks = Clock(self).install()
        tqdm_module.tqdm.monitor_interval = 0
        sys.stderr = SimStderr(self)
        os.chdir(self.scratch)
        random.seed(self.seed)
        np.random.seed(self.seed % 2 ** 32)
        matplotlib.rcParams["figure.max_open_warning"] = 0
        try:
            yield self
        finally:
            for m in modules:
                del m.__dict__["id"]
            for m, k, v in clocks:
                setattr(m, k, v)
            sys.stderr = old_err
            os.chdir(old_cwd)
            tqdm_std.time, tqdm_module.tqdm.monitor_interval = old_time, old_mon
            plt.close("all")
            WORLD = None


def frames():
    """How deep the stack of the code under test is."""
    n, f = 0, sys._getframe(1)
    while f is not None:
        n += f.f_code.co_filename.startswith(REPO_PREFIX)
        f = f.f_back
    return n


def model_size(model, view):
    """Unknowns, constraints (also inactive ones), components, length of the objective."""
    return (len(view.vars), sum(1 for _ in model.component_data_objects(pyo.Constraint)),
            sum(1 for _ in model.component_objects()), view.tape.size)


class Identity:
    """Takes the place of id() in the code under test.

    An allocator may give the address of a dead object to any new one.  Here that happens always
    and in a repeatable way: the number that became free last goes to the next object that is asked
    for its own.
    """

    def __init__(self):
        self.numbers, self.free, self.count = {}, [], 0

    def __call__(self, obj):
        key = id(obj)
        if key in self.numbers:
            return self.numbers[key][1]

        def gone(_):
            self.free.append(self.numbers.pop(key)[1])

        try:
            ref_ = weakref.ref(obj, gone)
        except TypeError:
            return key
        if not self.free:
            self.count += 1
            self.free.append(16 * self.count)
        number = self.free.pop()
        self.numbers[key] = ref_, number
        return number

    def install(self):
        modules = [m for k, m in list(sys.modules.items())
                   if k.split(".")[0] == "tvemoves_rufbad" and m is not None and "id" not in m.__dict__]
        for m in modules:
            m.__dict__["id"] = self
        return modules


def rotation(a):
    return np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])


def make_trials(sim, view, rec):
    """Trial points at which the objective is compared: a function of (seed, kind, step, dof)."""
    n, m = view.n, sim.mesh
    rng = np.random.default_rng([sim.cfg["aseed"], 11, rec.step, int(rec.kind == "mech")])
    start = np.nan_to_num(rec.start)
    cols = [start]
    if rec.kind == "mech":
        amps = (0.02, 0.08, 0.15, 0.3)
        if not sim.reg:
            for a in amps:
                cols.append(start + a * m.h * rng.uniform(-1, 1, n))
            A = np.eye(2) + rng.uniform(-0.3, 0.3, (2, 2))
            y = start.reshape(-1, 2) @ A.T + rng.uniform(-1, 1, 2) * m.h
            cols.append((y + 0.05 * m.h * rng.uniform(-1, 1, y.shape)).ravel())
        else:
            w = np.tile(m.h * m.h ** -ref._ORDER.astype(float), m.n * 2)
            for a in amps:
                cols.append(start + 0.3 * a * w * rng.uniform(-1, 1, n))
            A = np.eye(2) + rng.uniform(-0.3, 0.3, (2, 2))
            y = np.einsum("ij,njd->nid", A, start.reshape(-1, 2, 6))
            cols.append(y.ravel() + 0.02 * w * rng.uniform(-1, 1, n))
        # far away: turned, strongly compressed or stretched
        sv = np.exp(rng.uniform(-2.5, 1.6, 2))
        A = rotation(rng.uniform(-3, 3)) @ np.diag(sv) @ rotation(rng.uniform(-3, 3))
        noise = 0.02 * np.min(sv) * rng.uniform(-1, 1, n)
        if not sim.reg:
            cols.append((start.reshape(-1, 2) @ A.T).ravel() + m.h * noise)
        else:
            y = np.einsum("ij,njd->nid", A, start.reshape(-1, 2, 6))
            cols.append(y.ravel() + 0.3 * w * noise)
        # clamped unknowns cannot be varied by the solver
        cols = [np.where(rec.fixed, start, c) for c in cols]
    else:
        cols.append(np.maximum(start + 0.1 * rng.uniform(-1, 1, n), 0))
        cols.append(np.maximum(start + rng.uniform(-1, 1, n), 0))
        cols.append(rng.uniform(0, 0.5, n))
        cols.append(rng.uniform(0, 5, n))
        c = rng.uniform(0, 1, n)
        c[rng.random(n) < 0.5] = 0.0
        cols.append(c)
        cols.append(np.exp(rng.uniform(-9, 7, n)))
        cols.append(np.full(n, np.exp(rng.uniform(-4, 7))))
    return np.stack(cols, axis=1)
