"""Write /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "electrode/system.py"


def P(id, title, statement, over, text, why, files, mech, observe, na=None,
      note=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text,
                why=why, files=files, mech=mech, observe=observe, na=na,
                note=note)


PROPS = [
    P("C01", "Temporary voltage overrides are always rolled back",
      "When a temporary voltage override of a system ends - normally, by an "
      "exception or interrupt, by cancellation or abandonment of the task "
      "that holds it, or because applying the new voltages failed half way - "
      "every electrode that was in the system on entry carries the voltages "
      "of the overridden kind (dc, rf or both) it carried on entry, whatever "
      "nested overrides, direct voltage writes or electrode list edits "
      "happened inside. While it is in effect exactly the given voltages are "
      "in effect, and voltages of a kind that is not overridden are not "
      "touched by it.",
      ["histories", "fault_sequences", "crash_points", "schedules"],
      "every nesting of overrides, every interruption point inside or while "
      "applying one, every interleaving of tasks that take turns on a system",
      "the tests use one override that ends normally; rollback matters for "
      "failures and cancellations at arbitrary points",
      [S], [("with_voltages context manager", S)],
      ["Electrode.dc", "Electrode.rf", "System.dcs", "System.rfs"]),
    P("C02", "Reported potentials follow the present electrodes and voltages",
      "Every dc, rf, instantaneous, pseudo- and total potential or "
      "derivative a system reports equals the superposition of its present "
      "electrodes' unit contributions weighted by their present voltages "
      "(rf phased with the cosine of the time, pseudopotential the scaled "
      "square of the rf gradient and its derivatives), regardless of the "
      "history of earlier evaluations, failures, interrupts, voltage and "
      "scale changes, electrode list edits and electrode replacements. The "
      "modes and Mathieu exponents reported at a point are those of the "
      "present curvatures there, and electrodes are found by the names they "
      "presently have (the first of several, None for a name nobody has). If an "
      "electrode fails or an interrupt arrives during an evaluation, the "
      "caller gets that failure and never a result in which a contribution "
      "is missing, stale or counted twice.",
      ["histories", "fault_sequences", "inputs"],
      "every history of edits, evaluations and failures before an evaluation",
      "the tests evaluate freshly built systems at a few points and never "
      "after failures or edits",
      [S, "electrode/electrode.py", "electrode/utils.py"],
      [("electrical_potential, individual_potential, time_potential, "
        "pseudo_potential, potential", S),
       ("expand_tensor", "electrode/utils.py")],
      ["return values of the potential methods of System"]),
    P("C03", "Evaluating, searching, analysing and plotting change nothing",
      "Evaluating potentials, searching minima and saddle points, computing "
      "modes, analysing, integrating trajectories, grouping, plotting, "
      "optimizing and converting to geometry leave the electrodes' voltages, "
      "names, order and geometry, the arrays and constraint objects passed "
      "in, and process-wide settings (floating point error handling, print "
      "options, solver options, warning filters, random state) exactly as they were. This "
      "also holds when the operation fails or is interrupted at an arbitrary "
      "point.",
      ["histories", "fault_sequences", "crash_points", "inputs"],
      "every read-only operation, with a failure or interrupt at every point",
      "the tests never compare the state before and after an operation, "
      "least of all a failed one",
      [S, "electrode/electrode.py", "electrode/pattern_constraints.py",
       "electrode/polygons.py", "electrode/saddle.py"],
      [("private copies of start points, per-call solver options, copies of "
        "objectives in shims, new Polygons objects", S)],
      ["attributes of electrodes, arguments, numpy and cvxopt settings"]),
    P("C04", "Threads that only read a shared system do not disturb each other",
      "When several threads evaluate, search, integrate, analyse or optimize "
      "the same system at the same time without changing it, each of them "
      "gets exactly the result, or the failure, it would have got alone, for "
      "every interleaving. A failure injected into one thread does not "
      "change what the others get.",
      ["schedules", "fault_sequences"],
      "every interleaving of the threads at the granularity of source lines "
      "and bytecode instructions",
      "the tests are single threaded",
      [S, "electrode/electrode.py", "electrode/pattern_constraints.py",
       "electrode/mathieu.py"],
      [("no shared scratch state: closures with private copies, per-call "
        "solver options", S)],
      ["return values and exceptions per thread"]),
    P("C05", "An optimization does not depend on earlier ones",
      "The result of an optimization, shim calculation or voltage solve "
      "depends only on the system, constraints and options passed to it: not "
      "on which optimizations ran before, which options they used, how they "
      "ended, or which constraint and objective objects they shared with it.",
      ["histories", "fault_sequences"],
      "every sequence of optimizations, solves and shim calculations sharing "
      "systems and constraint objects, with solver failures in between",
      "each test optimizes once",
      [S, "electrode/pattern_constraints.py"],
      [("_run_cvxopt per-call options, shims on copies", S)],
      ["results and failures of optimize, shims, solve"]),
    P("C06", "Only optimal feasible voltages are returned",
      "Optimizing, solving and shimming return voltages only if the solver "
      "reported an optimum; the voltages then satisfy every constraint given "
      "within solver tolerance, the objectives are in the requested "
      "proportion with the reported strength, and no better feasible "
      "strength exists. If the solver stops early, reports "
      "infeasibility, fails, or is interrupted, an exception is raised and no "
      "voltages are returned; if it reports an optimum the voltages are "
      "returned.",
      ["inputs", "fault_sequences"],
      "every constraint set and every solver outcome",
      "the tests optimize feasible problems with a working solver",
      [S, "electrode/pattern_constraints.py"],
      [("_run_cvxopt status check, optimize, solve, shims", S)],
      ["returned voltages and strength, raised exceptions"]),
    P("C07", "Minimum and saddle searches succeed only when converged",
      "A minimum or saddle search that returns has converged on the "
      "potential of the present voltages: the returned point is the one the "
      "search ended at, with the coordinates that were not searched exactly "
      "as given and the potential reported with a saddle equal to the "
      "potential there, in the given coordinate system. If the search runs "
      "out of iterations, the potential cannot be evaluated or the search is "
      "interrupted, it raises, and the next search is unaffected. A "
      "search that starts well within the region of nearly constant "
      "curvature around a well-conditioned point of the wanted kind finds "
      "that point.",
      ["inputs", "fault_sequences", "histories"],
      "every start point, axis subset, coordinate system, iteration limit "
      "and failure point of the potential",
      "the tests search once per trap from a good start point",
      [S, "electrode/saddle.py"],
      [("minimum, saddle, rfo", S)],
      ["returned points and potentials, raised exceptions"]),
    P("C08", "Trajectories are timed, private and follow present voltages",
      "A trajectory yields its states at the start time plus every multiple "
      "of the time step until the final time is reached, each a private "
      "snapshot that later steps do not alter and that the caller may "
      "overwrite, and leaves the given initial position and velocity "
      "unchanged. Each step is driven by the field (down the gradient "
      "of the instantaneous potential) of the voltages present "
      "during that step and any number of trajectories may be advanced in "
      "any interleaving, be abandoned, or fail in the integrator or an "
      "electrode, without affecting the others; such a failure reaches the "
      "consumer.",
      ["schedules", "histories", "fault_sequences"],
      "every interleaving of generators, voltage changes, cancellations and "
      "failures",
      "the integrator is not installed here, so no test runs a trajectory",
      [S], [("trajectory generator", S)],
      ["yielded (t, x, v) tuples, calls seen by the integrator"]),
    P("C09", "Gridded electrodes load completely or fail, and resume",
      "A gridded electrode loaded from a file or a boundary element result "
      "holds exactly the stored potential and field, on the stored grid, and "
      "finite-difference derivatives of them for as many orders as "
      "requested; a "
      "missing, unreadable, truncated or inconsistent source raises and "
      "yields no electrode. Generating derivatives never alters the orders "
      "already present, is idempotent, and when interrupted or failing at an "
      "arbitrary point can be repeated to reach the same data as an "
      "undisturbed run.",
      ["fault_sequences", "crash_points", "histories"],
      "every grid, every read fault, every interruption point of generate",
      "the vtk reader is not installed here and no test interrupts generate",
      ["electrode/electrode.py", "electrode/utils.py"],
      [("GridElectrode.from_vtk, from_result, generate, derive",
        "electrode/electrode.py")],
      ["GridElectrode.data, origin, spacing, potential()"]),
    P("C10", "GDS export and import round trip, or fail",
      "Exporting polygonal electrodes to a GDS file and importing it again "
      "gives back every electrode's name, order and area to the database "
      "unit from the layers asked for, whatever the clock says. If writing fails or is torn, or the "
      "file is truncated or a read fails, the error is raised or the import "
      "fails; electrodes are never silently lost or altered, and the "
      "exported object is unchanged and can be exported again. Importing a "
      "layout drawn elsewhere cuts the field exactly along its gaps and "
      "routes, except for gaps within areas enclosed by routes and bridges, "
      "and names the pieces by their labels.",
      ["inputs", "fault_sequences", "crash_points"],
      "every electrode set, layout of paths, every write or read failure point and "
      "truncation length",
      "the tests neither save nor reload a file",
      ["electrode/polygons.py"],
      [("to_gds, from_gds, from_data", "electrode/polygons.py")],
      ["imported Polygons, raised exceptions"]),
    P("C11", "Xic layouts are read independently of line delivery",
      "Reading an Xic layout yields each terminated polygon exactly once, in "
      "order and with all its points scaled to metres, however many lines a "
      "polygon spans, whatever unrelated or blank lines and line endings "
      "surround it and whatever kind of line source delivers it. A polygon "
      "whose terminator was lost to truncation is not invented, malformed "
      "data raises, a read error reaches the caller, and reading again from "
      "the start succeeds.",
      ["inputs", "fault_sequences"],
      "every layout, every truncation point and every read failure point",
      "no test reads an Xic layout",
      ["electrode/xic.py"], [("xic_to_list", "electrode/xic.py")],
      ["returned list of point arrays"]),
    P("C12", "Voltage adjustment moves are transactions",
      "While ion moves are proposed, tried, accepted and rejected on a "
      "system, the recorded voltage, position and curvature histories always "
      "have one entry per accepted move plus the initial one, and after "
      "every accept or reject the system's voltages equal the last recorded "
      "ones. A move that fails or is rejected leaves voltages and histories "
      "as before, and accepting without a pending proposal is an error. A "
      "proposed change of voltages is the one for the requested displacement "
      "along the requested axis, and what is reported of a move belongs to "
      "that move.",
      ["histories", "fault_sequences"],
      "every sequence of proposals, accepts, rejects and failures",
      "no test exercises adjustment",
      ["electrode/adjust.py"],
      [("Adjust.propose_move, next_step, set_volts", "electrode/adjust.py")],
      ["Adjust.volts, xms, curves and the system's voltages"]),
    P("C13", "Work sent to worker pools gives the serial answer",
      "Systems, electrodes, geometry and constraints survive being sent to "
      "worker processes, and method calls dispatched to a pool give the "
      "same results as serial calls whatever the order, duplication, retry "
      "or crash of workers, without the caller's objects changing. The "
      "synchronous stand-in pool runs each dispatched call exactly once "
      "and hands its result or exception to everyone who asks.",
      ["schedules", "fault_sequences"],
      "every assignment, ordering, duplication and crash of dispatched calls",
      "the tests dispatch a single call to the stand-in pool",
      ["electrode/utils.py", "electrode/electrode.py", S],
      [("apply_method, DummyPool", "electrode/utils.py")],
      ["results collected from the pool"]),
    P("C14", "Adaptive meshing returns a matching, complete triple",
      "Adaptive meshing returns the system, voltages and strength of one and "
      "the same last completed iteration, with the fixed electrodes first, "
      "one electrode per triangle with all its symmetry copies, and at "
      "most the allowed number of triangles; each new "
      "triangulation is asked for exactly the refinement the voltage jumps "
      "across edges call for. A failure of the triangulator or the optimizer "
      "reaches the caller, and the caller's paths are unchanged.",
      ["histories", "fault_sequences"],
      "every sequence of triangulator answers and failures",
      "the triangulator is not installed here, so no test reaches this code",
      ["electrode/adaptive.py"], [("adapt_mesh", "electrode/adaptive.py")],
      ["returned (system, voltages, strength), triangulator inputs"]),
    P("C15", "A Mathieu solver object never mixes two solutions",
      "After any sequence of successful, failed and interrupted "
      "initialisations, a Mathieu solver reports the exponent and solutions "
      "of the last successful one as a freshly created solver would; before "
      "any successful one, asking for a solution is an error. The solutions "
      "take the initial values prescribed at the initial time and, in the "
      "first stability region, solve the Mathieu equation; each way of "
      "computing the exponent is right within its precision, and using one "
      "directly leaves the solution alone.",
      ["histories", "fault_sequences", "crash_points"],
      "every sequence of initialisations, failures and interrupts",
      "no test uses the solver object beyond a plain call",
      ["electrode/mathieu.py"], [("Mathieu.init_sol, sol_y1, sol_y2, "
                                  "init_value", "electrode/mathieu.py")],
      ["sol_y1, sol_y2, init_value"]),
    P("C16", "Static analysis reports are current and cancellable",
      "The textual analysis of a trap reports the minimum and saddle along "
      "the given axes, potentials, forces, curvatures, normal modes, "
      "frequencies and heating of the voltages present when it is "
      "consumed, in a fixed order, and gives the same "
      "lines whether yielded or logged. It can be abandoned or cancelled "
      "after any line, a failing saddle search only replaces the saddle "
      "lines, and any other failure, and every interrupt, reaches the "
      "consumer.",
      ["histories", "fault_sequences", "crash_points"],
      "every cancellation point, failure point and log configuration",
      "the tests consume whole reports from working traps",
      [S], [("analyze_static", S)], ["yielded or logged lines"]),
    P("C17", "Missing native code or optional packages only cost speed",
      "If a compiled module cannot be loaded, the package imports and gives "
      "the same potentials, derivatives and coordinate transformations from "
      "its Python implementation; if an optional package is missing, "
      "everything that does not need it still works with the same results. "
      "This holds for any combination of missing pieces.",
      ["configurations", "fault_sequences", "inputs"],
      "every combination of load failures and every input",
      "the tests run with all compiled modules present",
      ["electrode/electrode.py", "electrode/expressions.py",
       "electrode/cexpressions.pyx", "electrode/transformations.py",
       "electrode/_transformations.c", S],
      [("import fallbacks", "electrode/electrode.py")],
      ["results of potential() and of the transformations functions"]),
    P("C18", "Geometry processing never loses an electrode or its input",
      "Every geometry operation on polygonal electrodes returns a new "
      "object, leaves its input unchanged even when a geometry kernel call "
      "fails or is interrupted, keeps all electrodes' names and order unless "
      "dropping is its purpose, and covers the same area unless changing it "
      "is its purpose: conversion to and from a system, overlap removal "
      "(disjoint, same union), gaps, simplification, unions, restriction, "
      "filtering and pad assignment (to given pads or those around a "
      "square).",
      ["inputs", "fault_sequences", "histories"],
      "every electrode geometry, operation sequence and kernel failure point",
      "the tests process one layout with a working kernel",
      ["electrode/polygons.py"],
      [("Polygons methods", "electrode/polygons.py")],
      ["returned Polygons, receiver before and after"]),
    # ---- not simulation targets
    P("C20", "Electrode potentials solve Laplace's equation",
      "The potentials of electrodes are harmonic, their reported derivatives "
      "are the derivatives of the reported potential, and they approach the "
      "electrode voltage on the electrode and ground elsewhere.",
      ["inputs"], "every point, polygon and derivative order",
      "sampled at a few points only", ["electrode/expressions.py",
                                       "electrode/cexpressions.pyx"],
      [("expressions", "electrode/expressions.py")], ["potential()"],
      na="a pure function of its input: no schedule, clock, I/O, fault or "
      "interleaving can change the answer, so simulation would only be input "
      "generation under another name"),
    P("C21", "Tensor reduction, expansion and rotation are consistent",
      "Expanding a reduced derivative tensor gives a symmetric traceless "
      "tensor from which the reduction selects the original; rotating is a "
      "group action.",
      ["inputs"], "every tensor, order and rotation", "sampled",
      ["electrode/utils.py"], [("expand_tensor, select_tensor, "
                                "rotate_tensor", "electrode/utils.py")],
      ["return values"],
      na="pure linear algebra without any state, time, I/O or concurrency "
      "(its use inside a running system is covered by C02)"),
    P("C22", "Spherical harmonic conversions are mutually inverse",
      "Analysis and synthesis of spherical harmonics are inverse to each "
      "other for band-limited data, and the cartesian conversion agrees.",
      ["inputs"], "every band-limited function", "sampled",
      ["electrode/spherical_harmonics.py", "electrode/utils.py"],
      [("SphericalHarmonics", "electrode/spherical_harmonics.py")],
      ["return values"],
      na="pure numerics of its input; nothing to schedule, fail or crash"),
    P("C23", "Grid index and coordinate maps are inverse",
      "Index to coordinate and coordinate to index conversion of a grid are "
      "inverse to each other and agree with the grid's points and origin.",
      ["inputs"], "every grid", "sampled", ["electrode/grid.py"],
      [("Grid", "electrode/grid.py")], ["return values"],
      na="pure arithmetic of its input; nothing to schedule, fail or crash"),
    P("C24", "Coordinate transformation identities hold",
      "Composition, decomposition, Euler angle, quaternion and projection "
      "conversions of homogeneous transformations are mutually consistent.",
      ["inputs"], "every transformation", "doctest samples",
      ["electrode/transformations.py", "electrode/_transformations.c"],
      [("transformations", "electrode/transformations.py")],
      ["return values"],
      na="pure functions of their inputs (what the simulator can vary, the "
      "loss of the compiled module, is claimed as C17)"),
    P("C25", "Mathieu exponents are those of the equation",
      "Characteristic exponents and modes of the Mathieu matrix equation "
      "agree with direct integration and with each other across methods.",
      ["inputs"], "every stable parameter pair", "sampled",
      ["electrode/mathieu.py", "electrode/utils.py"],
      [("mathieu", "electrode/utils.py")], ["return values"],
      na="pure numerics of its input (the stateful solver object is C15)"),
    P("C26", "Grouped and converted electrodes stand for the present system",
      "Grouping puts every electrode's patches into exactly the bin the "
      "electrode's present (or given) voltage falls into, in the order of the "
      "electrodes, each group at the mean dc and rf voltage of its members "
      "and without voltage where it has none; merging a system into a mesh "
      "electrode reproduces the dc potential of its present voltages; "
      "converting to points keeps areas, centroids, name and voltages, and "
      "orientations are those of the present patches. The results "
      "stand on their own when the original's voltages or patches are "
      "replaced later, the original is not changed, and if a voltage cannot "
      "be read or the work is interrupted the failure surfaces and the next "
      "call is unaffected.",
      ["inputs", "fault_sequences", "histories"],
      "every history of voltage, shape and list changes, every threshold "
      "list and every failure point",
      "one grouping of one fixed system is tested",
      [S, "electrode/electrode.py"],
      [("group", S), ("from_polygon_system, to_points",
                      "electrode/electrode.py")],
      ["returned System and electrodes"]),
    P("C27", "Several ions settle at equilibrium positions",
      "The positions found for several ions are stationary in the potential "
      "of the present voltages and their mutual repulsion and no higher in "
      "energy than the start, and the curvatures and normal modes returned "
      "with them diagonalise the curvature there; a report for several ions "
      "shows separation, frequencies and modes of such positions in the "
      "given units, from any random start. If an electrode fails or the "
      "search is interrupted the failure surfaces, the arguments are never "
      "changed and the next search is unaffected.",
      ["inputs", "fault_sequences", "histories"],
      "every trap, ion number, charge, start and random draw, voltage "
      "history and failure point",
      "no test places more than one ion",
      [S], [("ions, several ions in _analyze_static", S)],
      ["returned positions, curvatures and modes, report lines"]),
    P("C28", "Plots show the present electrodes, voltages and potentials",
      "A plot draws every present electrode once, in order, with its present "
      "shape and name; a voltage plot colours each by its present (or the "
      "given) voltage on the scale asked for, and a contour plot draws the "
      "requested potential of the present voltages at the points of the "
      "requested plane with the requested levels and returns its extremes. "
      "This holds whatever was changed, overridden or drawn before; if the "
      "axes, a colour map or an electrode fails, or it is interrupted, the "
      "failure surfaces, no voltage is changed and the next plot is "
      "complete.",
      ["inputs", "fault_sequences", "histories"],
      "every history of changes and overrides, every drawing option and "
      "every failing drawing call",
      "the tests draw one system without looking at the result",
      [S, "electrode/electrode.py", "electrode/grid.py"],
      [("plot, plot_voltages, plot_contour", S),
       ("plot", "electrode/electrode.py")],
      ["calls received by the axes"]),
    P("C29", "Legacy constraint classes describe the same optimisation",
      "The older constraint classes are equivalent to the pattern "
      "constraints.",
      ["inputs"], "every constraint", "none", ["electrode/constraints.py"],
      [("constraints", "electrode/constraints.py")], ["return values"],
      na="a pure function of its input, in a module that is not importable "
      "with the package (its imports are commented out)"),
    P("C30", "Random rotations are seedable and uniform",
      "Random quaternions and rotation matrices are uniform and repeat when "
      "the generator is seeded.",
      ["inputs"], "every seed", "doctests",
      ["electrode/transformations.py", "electrode/_transformations.c"],
      [("random_quaternion, random_rotation_matrix, random_vector",
        "electrode/transformations.py")], ["return values"],
      na="the compiled versions draw from a private generator seeded from "
      "the wall clock inside C static state with no seam; a statistical "
      "uniformity claim is not a schedule or fault property"),
]


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": a, "where": b}
                                          for a, b in p["mech"]],
                            "observe_at": p["observe"],
                            "hook_needed": None}}) + "\n")
            assert len(p["title"]) <= 80, p["title"]
            assert p["statement"].count(". ") <= 2, p["id"]
    checks, na = [], []
    for p in PROPS:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        elif os.path.exists(os.path.join(HERE, "dst", "props",
                                         p["id"].lower() + ".py")):
            checks.append({
                "property": p["id"],
                "quick_cmd": "/opt/venv/bin/python -m dst.run check "
                + p["id"],
                "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python "
                "-m dst.run check " + p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": "deterministic simulation with fault injection: "
                "seeded search over " + p["text"],
                "level": "exploration",
                "level_note": p["note"] or "Sampled, not exhaustive: a pass "
                "means no violation in the seeded runs counted in the "
                "evidence file. Trusts numpy, scipy, cvxopt and shapely as "
                "installed and the independent reference model in "
                "/verif/dst."})
        else:
            na.append({"property": p["id"],
                       "reason": "check under construction"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1,
                   "setup_cmd": "/opt/venv/bin/python -m dst.run build",
                   "checks": checks, "not_applicable": na,
                   "notes": "No hooks in /repo: every seam used exists "
                   "already (trace function, import system, stream "
                   "arguments, electrode and integrator objects, solver "
                   "module, clock)."}, f, indent=1)
        f.write("\n")


main()
