"""Random scenarios."""

import random

from . import reference as ref
from .world import UNSUCCESSFUL, WIRE_UNSUCCESSFUL

SIDES = ("lower", "right", "upper", "left")


def rng_for(seed, prop, index):
    return random.Random(f"tvsim:{seed}:{prop}:{index}")


def pick(rng, *pairs):
    """weighted choice: (weight, value) pairs"""
    x = rng.random() * sum(p[0] for p in pairs)
    for w, v in pairs:
        x -= w
        if x <= 0:
            return v
    return pairs[-1][1]


def gen_fix(rng):
    k = rng.random()
    if k < 0.2:
        return None
    if k < 0.4:
        return rng.choice(SIDES)
    if k < 0.45:
        return []
    n = pick(rng, (5, 1), (4, 2), (2, 3), (1, 4))
    sides = rng.sample(SIDES, n)
    if rng.random() < 0.05:
        sides.append(sides[0])
    return sides


def gen_traction(rng, fps, scale=1.0):
    a = lambda: round(rng.uniform(-1.5, 1.5) * scale, 3)  # noqa: E731
    k = rng.random()
    if k < 0.45:
        return {"kind": "linear", "c": [[a(), a(), a(), a()], [a(), a(), a(), a()]]}
    if k < 0.65:
        return {"kind": "wave", "c": [[a(), round(rng.uniform(0.5, 6), 3), a(), a()] for _ in "ab"]}
    if k < 0.75:
        return {"kind": "const", "c": [a(), a()]}
    n = rng.randint(1, 6)
    if k < 0.9:
        return {"kind": "switch", "c": [a(), a()], "t0": (n - 0.5) / fps}
    return {"kind": "pulse", "c": [a(), a()], "times": [n / fps, (n + 2) / fps],
            "width": 0.25 / fps}


def gen_ext(rng, fps):
    a = lambda: round(rng.uniform(0.05, 2.0), 3)  # noqa: E731
    k = rng.random()
    if k < 0.4:
        return {"kind": "linear", "c": [[a(), a(), 0.0, 0.0]]}
    if k < 0.65:
        return {"kind": "wave", "c": [[a(), round(rng.uniform(0.5, 6), 3), 0.0, 0.0]]}
    if k < 0.75:
        return {"kind": "const", "c": [a()]}
    n = rng.randint(1, 6)
    if k < 0.9:
        return {"kind": "switch", "c": [a()], "t0": (n - 0.5) / fps}
    return {"kind": "pulse", "c": [a()], "times": [n / fps, (n + 2) / fps], "width": 0.25 / fps}


def gen_cfg(rng, reg=False, big=False, tiny=False, loads=True, exact=None, fine=True, wide=False,
            **over):
    while True:
        if reg:
            nx, ny = pick(rng, (6, (1, 1)), (1.2, (2, 1)), (1.2, (1, 2)), (0.25 if wide else 0, (2, 2)),
                          (0.1 if wide else 0, (3, 1)), (0.1 if wide else 0, (1, 3)))
        elif tiny:
            nx, ny = pick(rng, (2, (1, 1)), (1, (2, 1)), (1, (1, 2)))
        elif big:
            nx, ny = pick(rng, (2, (3, 3)), (2, (4, 2)), (2, (2, 4)), (1, (5, 1)), (1, (4, 4)),
                          (0.5, (1, 7)), (0.5, (6, 2)), (0.4, (10, 1)), (0.4, (5, 5)))
        else:
            nx, ny = pick(rng, (3, (1, 1)), (3, (2, 1)), (3, (1, 2)), (4, (2, 2)), (1, (3, 1)),
                          (1, (3, 2)), (1, (2, 3)), (0.5, (3, 3)))
        scale = pick(rng, (4, 1.0), (4, 0.5), (3, 0.25), (2, 0.1), (2, 0.3), (1, 2.0), (1, 0.2),
                     (0.5, 0.7), (0.5, 1e-3), (0.5, 20.0))
        if rng.random() < 0.12:
            scale = float(f"{10 ** rng.uniform(-1.5, 1.5):.3g}")
        w, h = round(nx * scale, 10), round(ny * scale, 10)
        if not exact and rng.random() < 0.12:
            # the last row or column of the body does not hold a whole cell
            if rng.random() < 0.5:
                w = round(w + rng.choice([0.2, 0.5, 0.8]) * scale, 10)
            else:
                h = round(h + rng.choice([0.2, 0.5, 0.8]) * scale, 10)
        if rng.random() < 0.1 and w == int(w) and h == int(h) and scale == int(scale):
            w, h, scale = int(w), int(h), int(scale)
        fix = gen_fix(rng)
        mesh = ref.Mesh(ref.cells(w, scale), ref.cells(h, scale), scale)
        # without regularization a wholly clamped body leaves the solver nothing to do
        if reg or len(ref.clamped_vertices(mesh, fix)) < mesh.n:
            break
    fps = pick(rng, (3, 3), (3, 10), (2, 1), (2, 30), (1, 7.5), (1, 0.5), (1, 24.0), (1, 2.0), (1, 60),
               (1, 15.4), (1.5, float(f"{10 ** rng.uniform(-0.7, 2.3):.3g}")))
    cfg = {
        "w": w, "h": h, "scale": scale, "fix": fix, "fps": fps,
        "theta0": pick(rng, (3, 0.0), (2, 0.05), (2, 0.3), (2, 1.0), (1, 4.0), (1, 0.7), (1, 0),
                       (1, round(rng.uniform(0.0, 6.0), 3)), (0.5, 25.0), (0.5, 300.0), (0.3, 2)),
        "radius": pick(rng, (3, 10.0), (2, round(0.4 * scale, 6)), (2, round(0.08 * scale, 6)),
                       (2, round(60.0 * scale, 6)), (1, 1.0),
                       (1, float(f"{10 ** rng.uniform(-1, 2):.3g}")), (0.3, 3)),
        "aseed": rng.randrange(10 ** 6),
        "policy": pick(rng, (1, "perturb"), (1, "mixed")),
        "mode": "wire" if rng.random() < (0.03 if reg else 0.15) and not (
            reg and nx * ny > 1) else "plugin",
    }
    if reg:
        cfg["reg"] = pick(rng, (2, 0.0), (2, 1.0), (1, 0.01), (1, 0.37), (1, 5), (1, 5e-4), (0.7, 1e-6),
                          (0.5, 40.0))
        small = (nx, ny) == (1, 1) and cfg["mode"] == "plugin"
        cfg["r"] = pick(rng, (6, 1), (2 if small and fine else 0, 2))
    elif rng.random() < 0.1:
        cfg["r"] = rng.choice([1, 2, 3])  # is ignored without regularization
    if loads:
        if rng.random() < 0.75:
            cfg["traction"] = gen_traction(rng, fps)
        if rng.random() < 0.75:
            cfg["ext"] = gen_ext(rng, fps)
        for k in ("traction", "ext"):
            if cfg.get(k) and rng.random() < 0.2:
                cfg[k]["as"] = rng.choice(["tuple", "array", "list"])
            if cfg.get(k) and cfg[k]["kind"] == "const" and rng.random() < 0.3:
                cfg[k].update(c=[rng.randint(0 if k == "ext" else -2, 2) for _ in cfg[k]["c"]])
        if cfg["theta0"] > 10 and cfg.get("ext") and "c" in cfg["ext"] and rng.random() < 0.7:
            # degrees Kelvin instead of units
            c = cfg["ext"]["c"]
            cfg["ext"]["c"] = [[x[0] * 100, *x[1:]] for x in c] if isinstance(c[0], list) else [
                x * 100 for x in c]
    if rng.random() < 0.08:
        cfg["numpy"] = True
    cfg.update(over)
    return cfg


def solver_kinds(cfg):
    return WIRE_UNSUCCESSFUL if cfg.get("mode") == "wire" else UNSUCCESSFUL


def mesh_of(cfg):
    return ref.Mesh(ref.cells(cfg["w"], cfg["scale"]), ref.cells(cfg["h"], cfg["scale"]), cfg["scale"])


def gen_fault(rng, cfg, n, op="run", sites=("solver", "load", "line", "stderr")):
    """One fault during an operation of about n steps."""
    mesh = mesh_of(cfg)
    opts = []
    if "solver" in sites:
        opts.append((4, "solver"))
    if "load" in sites and not cfg.get("reg"):
        if cfg.get("traction") and len(ref.free_edges(mesh, cfg.get("fix"))):
            opts.append((2, "traction"))
        if cfg.get("ext"):
            opts.append((2, "ext"))
    if "line" in sites:
        opts.append((3, "line"))
    if "stderr" in sites and op == "run" and n > 1:
        opts.append((1, "stderr"))
    site = pick(rng, *opts)
    if site == "solver":
        kind = rng.choice(solver_kinds(cfg))
        return {"site": "solver", "nth": rng.randint(1, 2 * n), "kind": kind}
    if site == "line":
        f = {"site": "line", "frac": round(rng.random(), 4), "salt": rng.randrange(1000),
             "kind": "kbd" if rng.random() < 0.6 else "memory"}
        if f["kind"] == "kbd" and f["salt"] % 4 == 0:
            f["kind"] = "exit"
        return f
    if site == "stderr":
        return {"site": "stderr", "nth": rng.randint(1, n + 2),
                "kind": rng.choice(["kbd", "epipe", "eio", "closed"])}
    kinds = ["raise", "kbd", "oserror", "memory"]
    if op == "run":
        kinds.append("stop")
    if site == "ext":
        kinds.append("negative")
        f = {"site": "ext", "nth": rng.randint(1, n), "kind": rng.choice(kinds)}
        return {**f, "kind": "exit"} if f["kind"] == "kbd" and f["nth"] % 3 == 0 else f
    free = {v for e in ref.free_edges(mesh, cfg.get("fix")) for v in e}
    f = {"site": "traction", "nth": rng.randint(1, max(1, len(free) * n * (2 if op != "run" else 1))),
         "kind": rng.choice(kinds)}
    return {**f, "kind": "exit"} if f["kind"] == "kbd" and f["nth"] % 3 == 0 else f


def construct(rng=None, cfg=None, faults=0.0, sites=("solver", "load", "line"), sim=0):
    ops = []
    if rng is not None and rng.random() < faults:
        ops.append({"op": "construct", "sim": sim, "faults": [gen_fault(rng, cfg, 1, "construct", sites)]})
    ops.append({"op": "construct", "sim": sim})
    return ops


def split(rng, total):
    out = []
    while total > 0:
        n = min(total, pick(rng, (4, 1), (3, 2), (2, 3), (1, 5), (0.7, rng.randint(4, 20))))
        out.append(n)
        total -= n
    return out


def fix_faults(sc):
    """Solver fault kinds that exist in the scenario's solver mode."""
    for op in sc["ops"]:
        mode = sc["sims"][op["sim"]].get("mode", "plugin")
        ok = WIRE_UNSUCCESSFUL if mode == "wire" else UNSUCCESSFUL
        for f in op.get("faults", ()):
            if f["site"] == "solver" and f["kind"] not in ok:
                f["kind"] = "maxiter" if mode == "plugin" else "code400"
    return sc
