"""Writes /verif/properties.jsonl (single source of the property list)."""
import json, pathlib
S = "src/tvemoves_rufbad/"
P = []
def p(id, title, statement, over, text, why, files, mech, obs, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=[S + f for f in files],
        state=[dict(name=a, meaning=b, where=S + c) for a, b, c in (state or [])],
        mechanism=[dict(name=a, where=S + c) for a, c in mech], observe_at=obs, hook_needed=hook)))

NOSIM = "No existing test constructs a Simulation (the external NLP solver is not installed), so nothing at all is checked today; "

p("C01", "A run records exactly the steps it completed",
  "After construction the history holds exactly two steps: the undeformed body at the initial temperature and the first computed step. A run of n steps that returns normally has appended exactly n steps, in order; a run that fails or is interrupted, at whatever point, has appended exactly the steps it had completed before that point, with no duplicated, skipped or half-computed step, and lets the error reach the caller. A run with a non-positive step count is rejected without any effect.",
  ["histories", "fault_sequences", "schedules", "configurations"],
  "every domain, parameter set, sequence of run calls, and every failure of solver, load callback, console or interrupt at any point in it",
  NOSIM + "and the claim is over call sequences and failure points, which examples cannot enumerate.",
  ["simulation.py"], [("Simulation.run / _run_single_step / _append_step", "simulation.py")],
  ["Simulation.steps", "exceptions raised by Simulation.run"],
  [("Simulation.steps", "recorded history", "simulation.py")])

p("C02", "Recorded steps never change and answer point queries faithfully",
  "For every recorded step, the deformation and temperature (and their gradients, and second derivatives in the regularised setting) queried at any point of the reference body are the finite-element interpolation of exactly the nodal values that were computed for that step; when the grid scale divides width and height evenly the whole rectangle can be queried, and points outside the body are refused. The answers stay the same for the life of the simulation, whatever further steps, failures, queries or plots happen in between.",
  ["histories", "inputs", "fault_sequences", "configurations"],
  "every history, every later operation or fault, every recorded step and every query point",
  "Interpolation is tested on single grids with one polynomial; no test keeps a recorded step across later steps, and aliasing or late evaluation only shows up over a history.",
  ["simulation.py", "interpolation.py", "domain.py", "bell_finite_element.py", "mechanical_step.py", "thermal_step.py"],
  [("Step / RegularizedStep build private interpolations", "simulation.py"), ("EuclideanInterpolation, P1Interpolation, C1Interpolation", "interpolation.py"), ("Grid.to_barycentric_point, RectangleDomain.grid", "domain.py")],
  ["step.y(x, y)", "step.theta(x, y)", "step.y.strain(x, y)", "step.y.hyper_strain(x, y)"])

p("C03", "A failed or interrupted step can simply be retried",
  "If a step fails part-way - the solver crashes, is missing or reports an error, a load callback raises, or the user interrupts the run at any moment - the simulation stays at its last recorded step. Continuing afterwards poses exactly the same problems and produces exactly the same history as if the failure had never happened.",
  ["fault_sequences", "crash_points", "histories"],
  "every failure kind at every point of a step (before, between, inside and after both solves, and at any executed line), any number of failures in a row, in both formulations",
  NOSIM + "and the claim quantifies over crash points inside a step.",
  ["simulation.py", "mechanical_step.py", "thermal_step.py"],
  [("_update_mechanical_step / _update_thermal_step re-derive the models from the last recorded step", "simulation.py"), ("update_prev_y, update_prev_theta, update_y, update_* loads overwrite all model state", "mechanical_step.py"), ("same for the thermal step", "thermal_step.py")],
  ["problems handed to the solver", "Simulation.steps"],
  [("mutable parameters and variables of the two optimisation models", "working state that must be re-derivable from the recorded history", "mechanical_step.py")])

p("C04", "Each step is posed at, and recorded from, the right state",
  "For every step the mechanical problem starts all its unknowns at the last recorded deformation and restricts each to the search radius around it; the thermal problem then starts at the last recorded temperature and restricts each value to the search radius around it and to non-negative values. The recorded step consists of exactly the deformation the solver returned for the mechanical problem and the temperature it returned for the thermal problem, node by node.",
  ["histories", "configurations", "fault_sequences"],
  "every history in both formulations, every search radius, every answer the solver may legally return, including inexact ones",
  NOSIM + "and the state handed from step to step depends on the whole history and on the solver's answers.",
  ["simulation.py", "mechanical_step.py", "thermal_step.py"],
  [("update_prev_y / update_prev_theta reset start values and bounds", "mechanical_step.py"), ("update_prev_theta resets start values and bounds", "thermal_step.py"), ("Simulation hands data between the two steps", "simulation.py")],
  ["start values, bounds and answers exchanged with the solver", "Simulation.steps"])

p("C05", "The mechanical problem minimises the documented energy",
  "Without regularisation, the mechanical objective posed for a step equals, up to an additive constant, the discretised sum of (i) the stored energy: austenite and martensite potentials mixed by the austenite percentage at the last recorded temperature, (ii) fps times the dissipation potential: half the squared norm of the symmetrised strain increment relative to the last recorded deformation, minus (iii) the work of the boundary traction over the part of the boundary that is not clamped. This holds for every trial deformation the solver may evaluate.",
  ["histories", "inputs", "configurations"],
  "every history, grid, clamped-side combination, frame rate and load, and every trial point",
  NOSIM + "so no energy term, sign, weight or argument order is checked by any test.",
  ["mechanical_step.py", "helpers.py", "integrators.py", "interpolation.py", "domain.py", "quadrature_rules.py", "tensors.py", "bell_finite_element.py"],
  [("_model objective", "mechanical_step.py"), ("total_elastic_potential, dissipation_potential", "helpers.py"), ("Integrator, BoundaryIntegrator", "integrators.py")],
  ["objective handed to the solver at trial points"])

p("C06", "The thermal problem minimises the documented potential",
  "Without regularisation, the thermal objective posed for a step equals, up to an additive constant, the discretised sum of heat conduction pulled back by the last recorded strain, minus the dissipation rate and coupling power of the step's strain rate times the temperature, plus heat exchange over the whole boundary with the external temperature (half the transfer coefficient times the squared difference), plus fps times the internal-energy increment (entropy constant and phase-coupling parts) relative to the last recorded state. This holds for every trial temperature the solver may evaluate.",
  ["histories", "inputs", "configurations"],
  "every history (two successive deformations and a temperature field), grid, frame rate, external temperature and trial point",
  NOSIM + "so no term of the heat equation is checked by any test.",
  ["thermal_step.py", "helpers.py", "integrators.py", "interpolation.py", "domain.py", "quadrature_rules.py", "tensors.py", "bell_finite_element.py"],
  [("_add_objective, _energy_potential, _dissipation_potential, _boundary_potential", "thermal_step.py"), ("heat_conductivity_reference, dissipation_rate, strain_derivative_coupling_potential, internal_energy*", "helpers.py")],
  ["objective handed to the solver at trial points"])

p("C07", "The regularised problems minimise the documented energies",
  "With regularisation (any non-negative weight, zero included), the deformation is a C1 finite-element function and the temperature is piecewise affine on the refined grid, for any refinement factor. The mechanical objective equals, up to a constant, stored energy plus the weight times the integral of the cubed norm of the second gradient plus fps times dissipation, and the thermal objective equals the same bulk terms as without regularisation, both integrated over the refined grid and evaluated at the last recorded state, for every trial point.",
  ["histories", "inputs", "configurations"],
  "every regularised history, refinement factor, weight, grid and trial point",
  NOSIM + "and the refined grid / coarse element interplay inside the energies is untested.",
  ["mechanical_step.py", "thermal_step.py", "interpolation.py", "domain.py", "bell_finite_element.py", "integrators.py", "quadrature_rules.py", "helpers.py", "tensors.py"],
  [("_model_regularized", "mechanical_step.py"), ("_model_regularized", "thermal_step.py"), ("RefinedInterpolation, RefinedGrid.to_coarse_barycentric_point", "interpolation.py")],
  ["objective handed to the solver at trial points"])

p("C08", "Loads follow the simulated clock and act where they should",
  "Step k of the history (k = 1 for the first computed step) is computed with boundary traction and external temperature taken at time (k-1)/fps, with no accumulated drift however long the run, and regardless of earlier failures or of how the run was split into calls. Traction is consulted exactly at the grid nodes that lie on unclamped boundary edges, acts component by component at those nodes, and both loads act in the plain as well as in the regularised formulation.",
  ["histories", "fault_sequences", "configurations", "inputs"],
  "every load function of time and position, clamped-side combination, frame rate, history length and failure history",
  NOSIM + "and time handling only shows over multi-step histories with time-dependent loads.",
  ["simulation.py", "mechanical_step.py", "thermal_step.py", "domain.py"],
  [("_current_time", "simulation.py"), ("update_boundary_traction", "mechanical_step.py"), ("update_external_temperature", "thermal_step.py"), ("neumann_boundary", "domain.py")],
  ["arguments of the load callbacks", "objective handed to the solver"])

p("C09", "Clamped sides never move and nothing else is clamped",
  "On every side listed in the domain's fix option (a single side, any combination, or none) the deformation of every recorded step is the identity: at the grid nodes, and in the regularised setting along the entire side. Every other degree of freedom stays free in every step, whatever the loads, solver answers and earlier failures.",
  ["configurations", "histories", "fault_sequences"],
  "all fix options, grids, formulations, histories and failures",
  "Tests look at which vertices a grid lists as clamped for single sides; whether the simulation honours it over a history is untested.",
  ["domain.py", "mechanical_step.py", "simulation.py"],
  [("dirichlet_boundary", "domain.py"), (".fix() and _dirichlet_constraint_regularized", "mechanical_step.py")],
  ["free/fixed unknowns and constraints handed to the solver", "Simulation.steps"])

p("C10", "Temperature stays admissible",
  "No recorded step ever has a negative temperature anywhere, every recorded nodal temperature lies within the search radius of the previous one, and step 0 has the initial temperature everywhere. In particular a solver answer that misses a bound only by its usual tolerance neither aborts the run nor puts a negative temperature into the history.",
  ["histories", "fault_sequences", "inputs"],
  "every history and every solver answer within tolerance of the posed bounds, in both formulations",
  NOSIM + "and it needs a solver that uses its tolerance, which no test has.",
  ["thermal_step.py", "simulation.py", "mechanical_step.py"],
  [("theta variable domain and bounds, theta()", "thermal_step.py"), ("prev_theta domain", "mechanical_step.py")],
  ["Simulation.steps", "bounds handed to the solver"])

p("C11", "An unsuccessful solve never becomes a recorded step",
  "If the solver ends without reporting success - infeasible, iteration or time limit, unbounded, no solution written, damaged or missing output, abnormal exit - for either problem of a step, constructing or running the simulation raises an error and that step is not recorded. Answers the solver does report as solved are accepted and recorded.",
  ["fault_sequences", "histories"],
  "every unsuccessful solver outcome, in either problem of any step, in both formulations",
  NOSIM + "and no solver failure is ever exercised.",
  ["mechanical_step.py", "thermal_step.py", "simulation.py"],
  [("solve()", "mechanical_step.py"), ("solve()", "thermal_step.py")],
  ["exceptions raised by Simulation(...) and run", "Simulation.steps"])

p("C12", "Energy inequality and heat balance hold along every history",
  "Whenever the solver does not worsen the problem it was given, every recorded unregularised step satisfies the mechanical energy inequality: stored energy plus fps times dissipation minus traction work, at the new deformation, does not exceed stored energy minus traction work at the previous one (both at the previous temperature). Whenever the solver solves the thermal problem accurately with no bound active, heat balances: the change of internal energy of the body over the step equals dissipated and coupling heat minus heat lost through the boundary.",
  ["histories", "fault_sequences", "inputs"],
  "every history, load, grid and frame rate, with solvers that stop early, fail and are retried",
  NOSIM + "and conservation along a trajectory is a property of histories, not of single calls.",
  ["simulation.py", "mechanical_step.py", "thermal_step.py", "helpers.py", "integrators.py"],
  [("objective of the mechanical step", "mechanical_step.py"), ("objective of the thermal step", "thermal_step.py"), ("staggered hand-over", "simulation.py")],
  ["Simulation.steps"])

p("C13", "Plotting and saving only observe",
  "Plotting a step, saving it as an image and saving the animation show the deformed grid coloured by the temperatures of exactly the requested steps (negative indices count from the end, an out-of-range index produces nothing, an image is named after the path and the step's index, the animation has one frame per recorded step in order). None of them, even when the file or the encoder fails half-way or when it happens in the middle of a step (from a load callback, say), changes the history or anything computed later, and repeating the operation afterwards succeeds with the proper output.",
  ["histories", "fault_sequences", "schedules"],
  "every interleaving of observing operations with runs, every index, and every output failure point",
  "No test plots or saves anything, and non-interference is a statement about all interleavings and I/O failures.",
  ["simulation.py", "helpers.py"],
  [("plot_step, save_step, save_animation", "simulation.py"), ("fig_axis, setup_axis", "helpers.py")],
  ["figures and files produced", "Simulation.steps"])

p("C14", "Plots share one scale that covers the whole history",
  "At any time, also while a run is in progress, the maximal temperature reported by the simulation, which is also the upper end of every plot's colour scale (the lower end being zero), is the maximum nodal temperature over all recorded steps, step 0 included. The plot window is the same for all steps and is exactly the bounding box of the nodal positions of all recorded steps, in both formulations, also after failed steps.",
  ["histories", "fault_sequences", "configurations"],
  "every history, with failures in between, in both formulations",
  "No test calls max_temp or plots; the extrema depend on the whole history.",
  ["simulation.py", "helpers.py"],
  [("_append_step extrema", "simulation.py"), ("setup_axis", "helpers.py")],
  ["Simulation.max_temp()", "axis limits and colour limits of figures"])

p("C15", "Simulations are isolated from each other and reproducible",
  "Several simulations alive in one process - sharing domain, parameter and load objects, and interleaved in any order down to single solver calls - each pose the same problems and record the same history as when run alone. The same simulation with the same solver answers also gives the same history in a fresh process, under any hash seed.",
  ["schedules", "histories", "configurations"],
  "every interleaving of several simulations (including ones that fail), in both formulations, and every process environment",
  "Interleavings and hash seeds are not exercised by any test.",
  ["simulation.py", "domain.py", "mechanical_step.py", "thermal_step.py", "interpolation.py"],
  [("per-instance models, grids and steps", "simulation.py"), ("RectangleDomain.grid / refine build fresh grids", "domain.py")],
  ["Simulation.steps", "problems handed to the solver"])

p("C16", "How a run is split into calls does not matter",
  "Running n steps in one call, in any number of smaller calls, or one step at a time yields the same history and poses the same problems to the solver.",
  ["histories", "schedules"],
  "every way of splitting every run, with any observing operations in between",
  NOSIM + "and the claim quantifies over call sequences.",
  ["simulation.py"], [("Simulation.run", "simulation.py")], ["Simulation.steps", "problems handed to the solver"])

p("C24", "A step costs the same however long the history",
  "Every completed step makes exactly one mechanical and one thermal solver call. However many steps have been recorded, and whatever failed in between, the problems posed for a step stay as large as at the beginning of the history (unknowns, constraints, components, terms of the objective), the loads are consulted as often, and the package's own code executes a bounded number of lines at a bounded depth of calls, so that long runs finish.",
  ["histories", "fault_sequences"],
  "every history length, with failures and plots in between",
  "Growth shows only in long histories; no test runs a simulation.",
  ["simulation.py", "mechanical_step.py", "thermal_step.py"],
  [("Simulation._run_single_step", "simulation.py"), ("models built once, updated through parameters", "mechanical_step.py")],
  ["problems handed to the solver", "calls of the load callbacks", "executed lines and stack depth"])

p("C25", "The solver can start on every problem it is given",
  "As long as the body has a free node and the last deformation preserves the orientation, every problem posed to the solver - for every body, clamping, formulation, load and history, also after failures - is one a derivative-based solver can start on: the starting point lies within bounds that leave every free unknown room and satisfies all equations, there are no more equations than free unknowns, and the objective and all its first derivatives are finite there.",
  ["histories", "fault_sequences", "inputs"],
  "every body, clamping, refinement, weight and history",
  "The tests never pose a problem; IPOPT refuses such problems only for particular bodies and histories.",
  ["mechanical_step.py", "thermal_step.py", "helpers.py"],
  [("_model, _model_regularized", "mechanical_step.py"), ("hyper_elastic_potential", "helpers.py"), ("_add_objective", "thermal_step.py")],
  ["problems handed to the solver"])

# --- pure functions of their input: listed, not claimed -----------------------------------
PURE = "Tests sample a few random inputs; the claim is over all inputs."
p("C17", "Tensor algebra is correct",
  "Vector, matrix and 3-d tensor operations (sum, scaling, products, transpose, determinant, 2x2 inverse, norms, stacking, reshaping) satisfy their algebraic definitions for all entries and shapes, symbolic entries included, and reject mismatched shapes.",
  ["inputs"], "all operands", PURE, ["tensors.py"], [("Vector, Matrix, Tensor3D, inverse_2x2", "tensors.py")], ["return values"])
p("C18", "Quadrature rules are exact to their degree",
  "The n-th triangle rule integrates all polynomials of total degree n exactly, and the edge rule with n points integrates all polynomials up to degree 2n-1 exactly on the unit segment.",
  ["inputs"], "all polynomials of the degree", PURE, ["quadrature_rules.py"], [("DUNAVANT*, GaussQuadratureRule", "quadrature_rules.py")], ["weights and points"])
p("C19", "Elements reproduce polynomials and join smoothly",
  "The C1 element reproduces every quartic polynomial with its first and second derivatives from its nodal data on any non-degenerate triangle, adjacent elements join with continuous gradient, and the affine element reproduces affine functions.",
  ["inputs"], "all triangles, nodal data and points", PURE, ["bell_finite_element.py", "interpolation.py"], [("bell_interpolation*", "bell_finite_element.py")], ["return values"])
p("C20", "Grids triangulate the rectangle",
  "For every width, height and scale the grid is a conforming triangulation by right isosceles triangles whose boundary splits into the clamped and the free part, and locating a point returns a containing triangle with the right barycentric coordinates.",
  ["inputs", "configurations"], "all rectangles, scales and fix options", PURE, ["domain.py"], [("RectangleDomain.grid", "domain.py")], ["Grid attributes"])
p("C21", "Refining a grid equals building a finer grid",
  "Refining by any factor gives, up to renumbering, the grid of the same rectangle with the divided scale, and the coarse coordinates of every fine triangle or edge point denote the same point.",
  ["inputs", "configurations"], "all grids and factors", PURE + " (test_equilateral_grid_refine fails at the pinned commit.)", ["domain.py"], [("RectangleDomain.refine", "domain.py")], ["RefinedGrid"])
p("C22", "Material laws are physically consistent",
  "The potentials are frame indifferent, vanish exactly at their wells, their stated derivatives are their derivatives, the mixture weight rises from 0 to 1 with temperature, and dissipation vanishes for rigid increments to first order.",
  ["inputs"], "all strains with positive determinant and all non-negative temperatures", "Nothing in the material model is tested.", ["helpers.py"], [("potentials", "helpers.py")], ["return values"])
p("C23", "Invalid parameters are rejected",
  "Constructing simulation parameters with a negative temperature or weight, a non-positive search radius, frame rate, scale or refinement factor, or with a regularisation weight but no refinement factor, raises an error.",
  ["inputs"], "all parameter values", "Parameter validation is untested.", ["simulation.py"], [("SimulationParams.__post_init__", "simulation.py")], ["exceptions"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
for x in P:
    assert len(x["title"]) <= 80, x["title"]
    assert x["statement"].count(". ") <= 2, (x["id"], x["statement"].count(". "))
