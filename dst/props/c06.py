"""Only optimal feasible voltages are returned."""
import copy

import numpy as np

from .. import core, optim
from ..core import is_injected

ID = "C06"
RUNS = {"quick": 4000, "thorough": 42000}
BATCH = 10
RULE = ("A run is a random sequence of optimizations, voltage solves and shim "
        "calculations on patterned electrode arrays with shared, edited "
        "constraint objects; some meet a failing or early stopping solver, a "
        "failing electrode or an interrupt. Returned voltages are compared "
        "with an independent formulation solved by another LP solver. "
        "Non-trivial: at least one fault fired.")
REAL = ["System.optimize, solve, shims", "pattern constraints",
        "cvxopt interior point solver under a fault wrapper"]
STUB = ["failing electrode wrapper", "failing solver wrapper"]
STATE_MEASURE = "distinct (operation, fault, outcome, reference outcome)"
FAULTS = ["solver-raise", "solver-raise-after", "solver-status",
          "solver-lost", "solver-maxiters", "interrupt",
          "electrode-raises-before", "electrode-nan"]
PROBES = ["optimize-optimal", "optimize-infeasible", "optimize-unbounded",
          "shims-optimal", "solve-optimal",
          "kept-at-zero", "single-objective",
          "stopped-early", "no-answer", "solver-contradicts-itself"]
ASSUMPTIONS = ["solver tolerances of 1e-5 relative at the default options; "
               "no optimality claim at looser options",
               "reference optimum by scipy's HiGHS",
               "not judged where the real solver claims an optimum that its "
               "own report calls infeasible"]
SHRINK = ("ops",)


def gen(rng, idx):
    systems, ctrs = optim.gen_world(rng)
    ops = []
    for _ in range(rng.randint(1, 5)):
        if rng.random() < .2:
            ops.append({"op": "edit", "e": optim.gen_edit(rng, systems, ctrs)})
        else:
            o = optim.gen_op(rng, systems, ctrs)
            if rng.random() < .4:
                o["fault"] = optim.gen_fault(rng, o)
            ops.append(o)
    return {"systems": systems, "ctrs": ctrs, "ops": ops}


def shrink(plan):
    for k, o in enumerate(plan["ops"]):
        if o["op"] == "edit":
            continue
        for key, v in (("fault", None), ("opts", {}), ("verbose", False)):
            if o.get(key) != v:
                c = copy.deepcopy(plan)
                c["ops"][k][key] = v
                yield c
        for key in ("ctrs", "obj", "xcd", "glob", "local"):
            if isinstance(o.get(key), list):
                for i in range(len(o[key])):
                    c = copy.deepcopy(plan)
                    del c["ops"][k][key][i]
                    yield c
    if len(plan["systems"]) > 1 and not any(
            o.get("sys") or (o["op"] == "edit" and o["e"][0] in (
                "geom", "swap") and o["e"][1]) for o in plan["ops"]):
        yield dict(plan, systems=plan["systems"][:1])
    for i, c0 in enumerate(plan["ctrs"]):
        if c0.get("rot") is not None:
            c = copy.deepcopy(plan)
            c["ctrs"][i]["rot"] = None
            yield c


def loose(o):
    op = o["opts"]
    return max(op.get("feastol", 0), op.get("abstol", 0), op.get("reltol", 0))


def verify(bench, o, res, sim, where):
    ref = bench.ref(o["sys"])
    n = len(ref.specs)
    ctrs = bench.ctrs
    lo = loose(o)
    tol = 1e-5 + 30*lo
    if o["op"] == "optimize":
        p, c = res
        cs = [ctrs[i] for i in o["ctrs"]]
        check_point(ref, cs, p, c, sim, where, tol, lo, n)
    elif o["op"] == "solve":
        u, c = res
        loc = [[ctrs[i] for i in l] for l in o["local"]]
        glob = [ctrs[i] for i in o["glob"]]
        u = np.asarray(u)
        sim.check(u.shape == (len(loc), n), "wrong-shape", where)
        sim.check(bool(np.all(np.isfinite(u))), "not-finite", where)
        sc = 1 + float(np.abs(u).max())
        w = optim.solve_feasibility(ref, loc, glob, u)
        sim.check(w <= tol*sc, "infeasible", lambda: "%s violates a "
                  "constraint by %g" % (where, w))
        v = optim.solve_value(loc, glob, u)
        c = float(np.asarray(c).ravel()[0])
        sim.close(c, v, "wrong-objective", where + " objective", rtol=1e-4,
                  atol=tol*sc)
        st, best = optim.ref_solve(ref, loc, glob)
        if st in (2, 3):
            sim.check(False, "infeasible", "%s returned voltages for an "
                      "infeasible or unbounded problem" % where)
        if st == 0:
            sim.probe("solve-optimal")
            sim.check(v <= best + (1e-4 + 30*lo)*(1+abs(best)),
                      "not-optimal", lambda: "%s objective %g, %g is "
                      "possible" % (where, v, best))
    else:
        V = np.asarray(res)
        problems = shim_problems(bench, o)
        sim.check(V.shape == (len(problems), n), "wrong-shape", where)
        for i, (v, full) in enumerate(zip(V, problems)):
            st, best = optim.ref_optimize(ref, full)
            sim.check(st != "bad" , "infeasible",
                      "%s returned shim %d of an %s problem" % (
                          where, i, best))
            if st != "ok" or abs(best) < 1e-3:
                continue
            # v = p/c, the best strength times v are the optimal voltages
            sim.probe("shims-optimal")
            check_point(ref, full, v*best, best, sim, where + " shim %d" % i,
                        tol*(1 + 1/abs(best)), lo, n)


def shim_problems(bench, o):
    """one optimization per demand, with the others kept at zero"""
    ctrs = bench.ctrs
    objs = [{"t": "pot", "x": x, "rot": r, "d": d, "value": 0}
            for x, r, d in o["xcd"]]
    objs += [dict(ctrs[i]) for i in o["obj"]]
    cs = [{"t": "range", "min": -1, "max": 1, "index": None}] \
        if o["ctrs"] is None else [ctrs[i] for i in o["ctrs"]]
    return [cs + [dict(c, value=float(i == j)) for j, c in enumerate(objs)]
            for i in range(len(objs))]


def check_point(ref, cs, p, c, sim, where, tol, lo, n):
    p = np.asarray(p)
    sim.check(p.shape == (n,), "wrong-shape", where)
    sim.check(bool(np.all(np.isfinite(p)) and np.isfinite(c)), "not-finite",
              where)
    sc = 1 + float(np.abs(p).max())
    w = optim.feasibility(ref, cs, p)
    sim.check(w <= tol*sc, "infeasible", lambda: "%s violates a constraint "
              "by %g" % (where, w))
    B, b = optim.objectives(ref, cs)
    st, best = optim.ref_optimize(ref, cs)
    if st == "unclear":
        sim.probe("reference-unclear")
        return
    sim.check(st == "ok", "infeasible", lambda: "%s returned voltages for "
              "an %s problem" % (where, best))
    sim.probe("optimize-optimal")
    if len(b) == 1:
        sim.probe("single-objective")
    if np.any(b == 0):
        sim.probe("kept-at-zero")
    rs = np.abs(B).sum(1)*sc
    d = np.abs(np.dot(B, p) - c*b)
    sim.check(bool(np.all(d <= tol*(1 + rs))), "not-proportional",
              lambda: "%s objectives %s at strength %g, requested %s" % (
                  where, np.dot(B, p), c, b))
    gap = best - c
    g = np.dot(np.linalg.pinv(B), b)
    sim.check(gap <= (1e-5 + 100*lo)*(1+abs(best)) + 2e-7/np.dot(g, g),
              "not-optimal",
              lambda: "%s strength %g, %g is possible" % (where, c, best))


def answerable(bench, o):
    """nothing keeps the solver from being asked: each voltage is limited
    and the exact demands are independent"""
    ref = bench.ref(o["sys"])
    ls = [o["ctrs"]] if o["op"] == "optimize" else o.get("local", [])
    ls = [[bench.ctrs[i] for i in l] for l in ls]
    if o["op"] == "shims":
        ls = shim_problems(bench, o)
        if not ls:
            return False
        for cs in ls:
            st, best = optim.ref_optimize(ref, cs)
            if st != "ok" or abs(best) < 1e-3:
                return False
    for cs in ls:
        if not any(c["t"] == "range" and c["index"] is None and
                   c["min"] != c["max"] for c in cs):
            return False
        B, b = optim.objectives(ref, cs)
        if o["op"] != "solve":
            if not np.any(b):
                return False
            rows = list(B)
        else:
            rows = []
        for c in cs:
            if c["t"] in ("pot", "multi") and c.get("offset") is not None:
                rows.append(ref.row(c))
            if c["t"] == "range" and c["min"] == c["max"] is not None:
                if c["index"] is None:
                    return False
                rows.append(np.eye(len(ref.specs))[c["index"]])
            if c["t"] == "vd" and not c["abs"]:
                return False
        if rows:
            rows = np.array(rows)
            nr = np.linalg.norm(rows, axis=1)
            if nr.min() < 1e-5 or len(rows) > len(ref.specs) or \
                    np.linalg.svd(rows/nr[:, None],
                                  compute_uv=False)[-1] < 1e-4:
                return False
    return len(ls) > 0


def execute(plan, sim):
    bench = optim.Bench(plan)
    import cvxopt
    cvxopt.solvers.options.clear()
    for k, o in enumerate(plan["ops"]):
        where = "op %d %s" % (k, o["op"])
        if o["op"] == "edit":
            bench.edit(o["e"])
            continue
        before = sum(sim.faults.values())
        res, err, ss, it = optim.attempt(bench, o, sim)
        fired = sum(sim.faults.values()) - before
        f = o["fault"]
        out = type(err).__name__ if err else "ok"
        sim.state(o["op"], f[0] if f else None, out, ss.results[-1:])
        sim.log(o["op"], out, ss.results)
        if err is None:
            if fired:
                if f[0] == "int" or f[0] == "el" and f[3] != "nan":
                    sim.check(False, "failure-swallowed",
                              "%s returned after a %s" % (where, f))
                if f[0] == "solver" and f[2][0] != "maxiters":
                    sim.check(False, "failure-swallowed", "%s returned after "
                              "the solver failed (%s)" % (where, f[2]))
            sim.check(all(r == "optimal" for r in ss.results)
                      and len(ss.results) > 0, "not-optimal",
                      lambda: "%s returned although the solver reported %s"
                      % (where, ss.results))
            if ss.lied:
                sim.probe("solver-contradicts-itself")
            else:
                verify(bench, o, res, sim, where)
        else:
            if fired and f[0] in ("int", "el") and f[-2] != "nan":
                if not is_injected(err) and not (f[0] == "el"):
                    raise err
            if ss.results and ss.results[-1] != "optimal":
                sim.probe("stopped-early")
            if not fired:
                sim.check(not (core.raised_in_package(err) and isinstance(
                    err, (AttributeError, NameError, LookupError))),
                          "unexpected-failure", lambda: "%s raised %s" % (
                              where, core.short_tb(err)))
                if o["op"] != "shims" and not ss.lied and not (
                        o["op"] == "solve" and any(
                            all(bench.ctrs[i]["t"] == "vd" for i in l)
                            for l in o["local"])):
                    # (a location without any demand has no answer to give)
                    sim.check(not ss.results or ss.results[-1] != "optimal",
                              "no-answer", lambda: "%s raised %s although "
                              "the solver reported an optimum" % (
                                  where, core.short_tb(err)))
                if (not ss.results or o["op"] == "shims" and not ss.lied and
                        all(r == "optimal" for r in ss.results)) \
                        and not is_injected(err) \
                        and o["opts"].get("maxiters", 100) > 0 \
                        and answerable(bench, o):
                    sim.probe("answerable")
                    sim.check(False, "no-answer", lambda: "%s raised %s "
                              "before asking the solver" % (
                                  where, core.short_tb(err)))
                if o["op"] == "optimize":
                    st, why = optim.ref_optimize(
                        bench.ref(o["sys"]),
                        [bench.ctrs[i] for i in o["ctrs"]])
                    if st == "bad":
                        sim.probe("optimize-" + why)
                    elif st == "ok" and not o["opts"] and abs(why) > 1e-3:
                        sim.probe("no-answer")
                        sim.log("no answer", core.short_tb(err))
                        sim.check(ss.results or not
                                  core.raised_in_package(err), "no-answer",
                                  lambda: "%s raised %s, a strength of %g is "
                                  "possible" % (
                                      where, core.short_tb(err), why))
