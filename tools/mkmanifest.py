"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
TECH = {
 "C01": "seeded solver, callback, interrupt and encoder faults at arbitrary points; history against a step-counting model",
 "C02": "recorded steps re-read and queried after later steps, faults and plots; oracle is an independent finite-element evaluation",
 "C03": "faulty execution against its fault-free twin, fault placed at any solver call, load evaluation or executed line",
 "C04": "simulated solver observes every posed problem (start, bounds, fixed) and its answer is compared with the recorded step, under faults",
 "C05": "objective read at the simulated solver seam at sampled trial points against an independent reference energy, over faulty histories",
 "C06": "objective read at the simulated solver seam at sampled trial points against an independent reference potential, over faulty histories",
 "C07": "objective read at the simulated solver seam at sampled trial points against an independent C1/P1 reference, over faulty histories",
 "C08": "simulated clock and scripted load callbacks; posed objective against reference at the step's time, long runs, splits and faults",
 "C09": "adversarial simulated solver answers and faults; posed fixings and recorded boundary checked every step",
 "C10": "simulated solver that misses bounds within tolerance; invariant on every recorded step",
 "C11": "every unsuccessful solver outcome injected in plugin and wire mode, at either problem of any step",
 "C12": "simulated descending / accurate solvers; energy and heat balance computed by the reference along each history",
 "C13": "plot, save and animate with file and encoder faults interleaved with steps, against a twin that never observes",
 "C14": "plot limits and colour scales captured from the real figures between steps and faults; oracle recomputed from the history",
 "C15": "seeded interleaving of several simulations (operations and parked caller threads) against solo twins; fresh interpreters under other hash seeds",
 "C24": "long faulty histories; size of every posed problem, solver and load calls, executed lines and stack depth of each step against the first steps",
 "C25": "every posed problem probed at its starting point as a derivative-based solver would (value, all first derivatives, bounds, equations, degrees of freedom), over faulty histories of both formulations",
 "C16": "the same history executed under differently split calls, compared solver call by solver call",
}
NOTE = {
 "C25": "Bodies without a free node and steps after an orientation-reversing deformation are excluded; second derivatives are not probed.",
 "C05": "Objectives are compared at sampled trial points only.",
 "C06": "Objectives are compared at sampled trial points only.",
 "C07": "Objectives are compared at sampled trial points only.",
 "C08": "Two known findings (the regularised formulation ignores both loads) are reported, not suppressed for anything else.",
 "C15": "Threads switch only at solver calls and load evaluations.",
}
BASE = ("Seeded search: a quiet run is evidence over the explored scenarios, no proof. IPOPT is replaced by a "
        "simulated solver (at Pyomo's solver registry, or at the process boundary below Pyomo's own IPOPT plugin); "
        "everything else is the real code of /repo, Pyomo, matplotlib and tqdm.")
NA = "pure function of its input: no schedule, clock, fault, I/O or interleaving takes part in it, so simulation has nothing to decide"
na = {
 "C17": NA + "; wrong tensor operations still show up through the posed problems of C05-C07",
 "C18": NA + "; a wrong rule still shows up through C05-C07",
 "C19": NA + "; a wrong element still shows up through C02 and C07",
 "C20": NA + "; a wrong grid still shows up through C02, C05, C08 and C09",
 "C21": NA + "; a wrong refinement still shows up through C07",
 "C22": NA + "; a wrong law still shows up through C05-C07 and C12",
 "C23": NA + " (constructor validation of single values)",
}
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python -B tools/smoke.py",
     "checks": [{"property": p, "quick_cmd": f"python3 check.py {p} --tier quick",
                 "thorough_cmd": f"python3 check.py {p} --tier thorough",
                 "evidence_file": f"evidence/{p}.json",
                 "technique": T + TECH[p], "level": "exploration",
                 "level_note": (NOTE.get(p, "") + " " + BASE).strip()} for p in sorted(TECH)],
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(na.items())],
     "notes": "No hooks in /repo are needed: all seams exist (Pyomo's solver registry and process boundary, "
              "constructor callbacks, tqdm's clock and stream, matplotlib's savefig and encoder, sys.monitoring line events)."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
