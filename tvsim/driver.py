"""Executes scenarios: builds the simulated world, performs the operations, records what happened."""

import bisect
import gc
import os
import random
import shutil
import sys
import tempfile
import threading
import traceback

import numpy as np

from . import world as W

SCRATCH_ROOT = "/tmp/tvsim-scratch"


class HarnessBug(Exception):
    """Something went wrong in the harness itself."""


class OpResult:
    __slots__ = ("index", "op", "sim", "ok", "error", "etype", "before", "after", "rec0", "rec1",
                 "fired", "value", "call0", "call1", "trace", "line_hit", "figs", "vids", "nlines",
                 "files")


class Trace:
    def __init__(self, scenario, world):
        self.scenario = scenario
        self.world = world
        self.sims = world.sims
        self.ops = []

    def of(self, sim_index):
        return [o for o in self.ops if o.sim == sim_index]


class Tagger:
    """Gives every unknown a value of its own, to find out what it stands for."""

    def __init__(self):
        self.next = 1
        self.tags = {}
        self.view_vars = []

    def tag(self, view):
        x = np.empty(len(view.vars))
        for k, v in enumerate(view.vars):
            base = 0.0 if v.value is None else float(v.value)
            x[k] = base + 1e-4 * self.next
            self.tags[len(view.vars), v.name] = self.next
            self.next += 1
        self.view_vars.append([v.name for v in view.vars])
        return x


_CALIBRATIONS = {}


def calibrate(cfg):
    """Which unknown of which problem is which nodal value, found by a simulated step."""
    key = (cfg["w"], cfg["h"], cfg["scale"], cfg.get("reg") is None, cfg.get("r"))
    if key in _CALIBRATIONS:
        return _CALIBRATIONS[key]
    c = dict(cfg, fix=None, theta0=1.0, radius=1e6, traction=None, ext=None, mode="plugin")
    saved = W.WORLD
    w = W.World({"seed": 0}, tempfile.gettempdir())
    W.WORLD = w
    try:
        s = W.Sim(w, 0, c)
        s.calibrating = Tagger()
        w.sims, w.active = [s], s
        s.construct()
        s.sync()
        a, b = s.snaps[0], s.snaps[1]
        out = {}
        inverse = {v: k for k, v in s.calibrating.tags.items()}
        h = 1.0
        for kind, f in (("mech", "y"), ("therm", "theta")):
            d = (b[f] - a[f]).ravel() / 1e-4
            for k, t in enumerate(d):
                name = inverse.get(int(round(t / h)))
                if name is None or abs(t - round(t)) > 1e-3 or name in out:
                    raise W.ModelMismatch("cannot identify the unknowns")
                out[name] = (kind, k)
        _CALIBRATIONS[key] = out
        return out
    finally:
        W.WORLD = saved


class Baton:
    """Seeded scheduler of caller threads: exactly one runs, switches happen at park points."""

    def __init__(self, world, seed, switch=0.7):
        self.world = world
        self.rng = random.Random(seed)
        self.local = threading.local()
        self.cv = threading.Condition()
        self.current = None
        self.alive = []
        self.switch = switch
        self.decisions = []

    def current_sim(self):
        return getattr(self.local, "sim", None)

    def park(self, sim, where):
        me = getattr(self.local, "me", None)
        if me is None:
            return
        if self.rng.random() >= self.switch or len(self.alive) < 2:
            return
        nxt = self.alive[self.rng.randrange(len(self.alive))]
        self.decisions.append((me, where, nxt))
        self.world.event("switch", me, where, nxt)
        self._hand(me, nxt)

    def _hand(self, me, nxt):
        if nxt == me:
            return
        with self.cv:
            self.current = nxt
            self.cv.notify_all()
            while self.current != me:
                self.cv.wait()

    def run(self, jobs):
        """jobs: list of (sim, function)"""
        errors = []
        self.alive = list(range(len(jobs)))

        def body(me, sim, fn):
            self.local.sim, self.local.me = sim, me
            with self.cv:
                while self.current != me:
                    self.cv.wait()
            try:
                fn()
            except BaseException as e:  # noqa: BLE001
                errors.append(e)
            with self.cv:
                self.alive.remove(me)
                if self.alive:
                    self.current = self.alive[self.rng.randrange(len(self.alive))]
                    self.decisions.append((me, "end", self.current))
                else:
                    self.current = None
                self.cv.notify_all()

        ts = [threading.Thread(target=body, args=(k, s, f), daemon=True)
              for k, (s, f) in enumerate(jobs)]
        for t in ts:
            t.start()
        with self.cv:
            self.current = self.alive[self.rng.randrange(len(self.alive))]
            self.cv.notify_all()
        for t in ts:
            t.join()
        if errors:
            raise errors[0]


def _pick_line(locs, frac, salt):
    """A location uniformly among the distinct executed lines, then one of its executions."""
    where = {}
    for k, l in enumerate(locs):
        where.setdefault(l, []).append(k)
    keys = sorted(where)
    if not keys:
        return None
    r = random.Random(f"{frac}:{salt}")
    if r.random() < 0.5:
        return 1 + int(frac * len(locs))
    occ = where[keys[min(int(frac * len(keys)), len(keys) - 1)]]
    return 1 + occ[r.randrange(len(occ))]


class Executor:
    def __init__(self, scenario, line_locs=None, record_lines=False, budget=None):
        self.scenario = scenario
        self.line_locs = line_locs
        self.record_lines = record_lines
        os.makedirs(SCRATCH_ROOT, exist_ok=True)
        self.scratch = os.path.realpath(tempfile.mkdtemp(dir=SCRATCH_ROOT))
        os.mkdir(os.path.join(self.scratch, "dir"))
        self.world = W.World(scenario, self.scratch)
        if budget:
            self.world.solve_budget = budget
        self.trace = Trace(scenario, self.world)
        self.trace.scratch = self.scratch
        self.line_record = {}

    def run(self):
        sc, w = self.scenario, self.world
        try:
            with w.installed():
                self._setup()
                if sc.get("threads"):
                    self._threads()
                else:
                    for k, op in enumerate(sc["ops"]):
                        self.perform(k, op)
            return self.trace
        finally:
            shutil.rmtree(self.scratch, ignore_errors=True)

    def _setup(self):
        sc, w = self.scenario, self.world
        w.share = bool(sc.get("share"))
        w.sims.extend(W.Sim(w, k, cfg) for k, cfg in enumerate(sc["sims"]))

    def _threads(self):
        sc, w = self.scenario, self.world
        groups = {}
        for k, op in enumerate(sc["ops"]):
            groups.setdefault(op["sim"], []).append((k, op))
        # models are built one after the other (Pyomo keeps global state while it builds one)
        baton = Baton(w, sc["threads"])
        for i, ops in groups.items():
            k, op = ops[0]
            assert op["op"] == "construct"
        w.scheduler = baton
        jobs = []
        for i, ops in groups.items():
            def job(ops=ops):
                for k, op in ops:
                    self.perform(k, op)
            jobs.append((w.sims[i], job))
        try:
            baton.run(jobs)
        finally:
            w.scheduler = None
        self.trace.decisions = baton.decisions

    def perform(self, index, op):
        w = self.world
        sim = w.sims[op.get("sim", 0)]
        r = OpResult()
        r.index, r.op, r.sim = index, op, sim.index
        r.ok, r.error, r.etype, r.value, r.trace, r.line_hit = True, None, None, None, None, None
        r.before = len(sim.obj.steps) if sim.obj is not None else 0
        r.rec0, r.call0 = len(sim.records), len(sim.calls)
        nf, ng, nv = len(w.fired), len(w.figures), len(w.videos)
        w.active = sim
        w.opidx[sim.index] = index
        w.faults[sim.index] = [f for f in op.get("faults", ()) if f["site"] != "line"]
        for key in [k for k in w.counts if k[0] == sim.index]:
            del w.counts[key]
        line = next((f for f in op.get("faults", ()) if f["site"] == "line"), None)
        w.event("op", index, op["op"])
        use_lines = w.scheduler is None and (line is not None or self.record_lines or "count" in op)
        target = None
        if line is not None and not self.record_lines:
            locs = (self.line_locs or {}).get(index)
            target = _pick_line(locs, line["frac"], line.get("salt", 0)) if locs else None
        if sim.obj is None and op["op"] != "construct":
            return None
        try:
            fn = getattr(self, "op_" + op["op"])
            if use_lines:
                W.LINES.start(target, self.record_lines, line["kind"] if line else "kbd",
                              jumps="count" in op)
            try:
                r.value = fn(sim, op)
            finally:
                if use_lines:
                    W.LINES.stop()
        except (W.HarnessLimit, W.ModelMismatch, W.Unreadable, HarnessBug):
            raise
        except W.NeedCalibration:
            if sim.calibration is not None:
                raise HarnessBug("calibration does not help")
            calibrated = True
            try:
                sim.calibration = calibrate(sim.cfg)
            except (W.HarnessLimit, W.ModelMismatch, W.Unreadable, HarnessBug):
                raise
            except Exception as e:  # noqa: BLE001
                # the code under test cannot simulate this body at all
                calibrated = False
                r.ok, r.error, r.etype = False, str(e)[:300], type(e).__name__
                r.trace = "".join(traceback.format_exception(e))[-3000:]
                if _harness_error(e):
                    raise HarnessBug(r.trace)
            if calibrated:
                sim.records, sim.calls, sim.views = [], [], {}
                return self.perform(index, op)
        except BaseException as e:  # noqa: BLE001
            r.ok, r.error, r.etype = False, str(e)[:300], type(e).__name__
            r.trace = "".join(traceback.format_exception(e))[-3000:]
            harness = _harness_error(e)
            if harness:
                raise HarnessBug(r.trace)
            e.__traceback__ = None
            del e
        if use_lines:
            r.nlines = W.LINES.count + W.LINES.jumps
            if self.record_lines:
                self.line_record[index] = W.LINES.locs
            if W.LINES.hit:
                r.line_hit = W.LINES.hit
                w.fired.append((index, "line", target, line["kind"]))
                w.event("fault", sim.index, "line", target, line["kind"])
        w.faults[sim.index] = []
        r.after = len(sim.obj.steps) if sim.obj is not None else 0
        r.rec1, r.call1 = len(sim.records), len(sim.calls)
        r.fired = [f for f in w.fired[nf:] if f[0] == index]
        r.figs, r.vids = w.figures[ng:], w.videos[nv:]
        r.files = self.listing() if op["op"] in ("save", "anim") else None
        sim.sync()
        sim.ops.append(r)
        self.trace.ops.append(r)
        w.event("done", index, r.ok, r.etype, r.after)
        return r

    def listing(self):
        out = []
        for d, _, fs in os.walk(self.scratch):
            for f in fs:
                p = os.path.join(d, f)
                out.append((os.path.relpath(p, self.scratch), os.path.getsize(p)))
        return sorted(out)

    # -- operations --
    def op_construct(self, sim, op):
        sim.construct()

    def op_reach(self, sim, op):
        """Continue until the history has n steps (the initial one not counted)."""
        missing = op["n"] + 1 - len(sim.obj.steps)
        if missing > 0:
            if op.get("single"):
                for _ in range(missing):
                    sim.obj.run(1)
            else:
                sim.obj.run(missing)

    def op_run(self, sim, op):
        if op.get("kw"):
            sim.obj.run(num_steps=op["n"])
        elif op.get("default"):
            sim.obj.run()
        else:
            sim.obj.run(op["n"])

    def op_query(self, sim, op):
        """Values at random points of the body, of every recorded step."""
        rng = np.random.default_rng([op["qseed"], 3])
        m = sim.mesh
        W_, H_ = m.nx * m.h, m.ny * m.h
        n = op.get("n", 6)
        pts = query_points(rng, m, sim.fine, n, (sim.cfg["w"], sim.cfg["h"]))
        out = []
        steps = sim.obj.steps
        idx = range(len(steps)) if len(steps) <= 6 else sorted(
            {0, 1, len(steps) - 1, *rng.integers(0, len(steps), 3).tolist()})
        for k in idx:
            s = steps[k]
            vals = [None] * len(pts)
            # answers must not depend on what was asked before
            for i in np.random.default_rng([op["qseed"], len(sim.ops)]).permutation(len(pts)):
                x, y = coordinates(pts[i], op["qseed"] + int(i))
                row = [float(v) for v in s.y(x, y)] + [float(s.theta(x, y))]
                for c in range(2):
                    g = s.y[c].gradient(x, y)
                    row += [float(g[0]), float(g[1])]
                st = s.y.strain(x, y)
                row += [float(st[i, j]) for i in range(2) for j in range(2)]
                g = s.theta.gradient(x, y)
                row += [float(g[0]), float(g[1])]
                if sim.reg:
                    for c in range(2):
                        hh = s.y[c].hessian(x, y)
                        row += [float(hh[0, 0]), float(hh[0, 1]), float(hh[1, 0]), float(hh[1, 1])]
                    hs = s.y.hyper_strain(x, y)
                    row += [float(hs[c, i, j]) for c in range(2) for i in range(2) for j in range(2)]
                vals[i] = row
            out.append((k, vals))
        outside = []
        for x, y in outside_points(rng, sim, W_, H_):
            last = steps[-1]
            for name, f in (("y", last.y), ("theta", last.theta), ("strain", last.y.strain),
                            ("the gradient of theta", last.theta.gradient)):
                try:
                    f(float(x), float(y))
                    outside.append((x, y, name, False))
                except ValueError:
                    outside.append((x, y, name, True))
        return {"points": pts, "values": out, "outside": outside}

    def op_plot(self, sim, op):
        before = set(W.plt.get_fignums())
        sim.obj.plot_step(op["i"])
        new = [n for n in W.plt.get_fignums() if n not in before]
        return [W.figure_content(W.plt.figure(n)) for n in new]

    def op_save(self, sim, op):
        if op.get("path") is None:
            sim.obj.save_step(op["i"])
        else:
            sim.obj.save_step(op["i"], op["path"])

    def op_anim(self, sim, op):
        if op.get("path") is None:
            sim.obj.save_animation()
        else:
            sim.obj.save_animation(op["path"])

    def op_maxtemp(self, sim, op):
        return float(sim.obj.max_temp())

    def op_drop(self, sim, op):
        """The user lets go of the simulation."""
        sim.y_order  # from the domain, while it is there
        sim.obj = sim.domain = sim.params = None
        sim.views = {}
        gc.collect()

    def op_close(self, sim, op):
        W.plt.close("all")


def coordinates(p, how):
    """Users pass floats, integers where they can, and numbers of numpy."""
    if how % 3 == 0:
        return tuple(int(c) if float(c).is_integer() else float(c) for c in p)
    return tuple(map(np.float64 if how % 3 == 1 else float, p))


def query_points(rng, mesh, fine, n, size):
    """Points of the body: vertices, edge points, corners and interior points away from edges."""
    pts = []
    Wd, Hd = mesh.nx * mesh.h, mesh.ny * mesh.h
    for _ in range(n):
        t = fine.triangles[rng.integers(len(fine.triangles))]
        b = rng.dirichlet([1, 1, 1]) * 0.94 + 0.02
        pts.append(tuple(b @ fine.points[t]))
    v = fine.points[rng.integers(fine.n)]
    pts.append((float(v[0]), float(v[1])))
    t = mesh.triangles[rng.integers(len(mesh.triangles))]
    e = rng.permutation(3)[:2]
    s = rng.random()
    pts.append(tuple(s * mesh.points[t[e[0]]] + (1 - s) * mesh.points[t[e[1]]]))
    if rng.random() < 0.5:
        # the size as the user gave it, not as the mesh rounds it
        Wd, Hd = (b if abs(a - b) <= 1e-9 * a else a for a, b in zip((Wd, Hd), size))
    pts += [(Wd, Hd), (0.0, 0.0), (Wd * rng.random(), Hd), (Wd, Hd * rng.random())]
    return pts


def outside_points(rng, sim, W_, H_):
    W_, H_ = max(W_, sim.cfg["w"]), max(H_, sim.cfg["h"])
    h = sim.mesh.h
    d = h * float(rng.choice([0.01, 0.3, 2.0]))
    u, v = rng.random(2)
    return [(-d, v * H_), (W_ + d, v * H_), (u * W_, -d), (u * W_, H_ + d), (W_ + d, H_ + d)]


def _harness_error(e):
    """Did the exception originate in the harness instead of in (or below) the code under test?"""
    files = []
    tb = e.__traceback__
    while tb is not None:
        files.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    ours = [k for k, f in enumerate(files) if f.startswith(W.HERE)]
    repo = [k for k, f in enumerate(files) if f.startswith(W.REPO_PREFIX)]
    if not repo:
        # unusable values returned to the driver are the code's fault, everything else is ours
        return not files[-1].endswith("driver.py")
    if not ours or ours[-1] < repo[-1]:
        return False
    if files[ours[-1]].endswith(("tape.py", "reference.py", "policies.py")):
        return True
    return not isinstance(e, (KeyboardInterrupt, SystemExit, W.CallbackError, OSError, MemoryError,
                              StopIteration, RuntimeError, W.ApplicationError, ValueError,
                              W._subprocess.SubprocessError))


def strip_faults(scenario):
    out = dict(scenario)
    out["ops"] = [{k: v for k, v in op.items() if k != "faults"} for op in scenario["ops"]]
    return out


def has_lines(scenario):
    return any(f["site"] == "line" for op in scenario["ops"] for f in op.get("faults", ()))


def execute(scenario, budget=None):
    """Run one scenario; interrupts at lines are placed with the help of a fault-free run."""
    locs = None
    if has_lines(scenario):
        ex = Executor(strip_faults(scenario), record_lines=True, budget=budget)
        ex.run()
        locs = ex.line_record
    return Executor(scenario, line_locs=locs, budget=budget).run()
