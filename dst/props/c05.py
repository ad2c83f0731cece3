"""An optimization does not depend on earlier ones."""
import copy
import os
import pickle

import numpy as np

from .. import core, optim
from ..core import HarnessError
from .c06 import shrink  # noqa

ID = "C05"
RUNS = {"quick": 2000, "thorough": 36000}
BATCH = 8
APART = True
RULE = ("A run is a random sequence of optimizations, voltage solves and shim "
        "calculations on shared systems and constraint objects, with edits, "
        "solver failures, failing electrodes and interrupts in between. Every "
        "undisturbed one is compared with the same one done first thing in a "
        "pristine process on freshly made objects: result, failure, and the "
        "options the solver was given. Non-trivial: a fault fired before a "
        "compared operation.")
REAL = ["System.optimize, solve, shims", "pattern constraints",
        "cvxopt interior point solver under a fault wrapper"]
STUB = ["failing electrode wrapper", "failing solver wrapper"]
STATE_MEASURE = "distinct (previous operation, its fault, its outcome, " \
    "operation, outcome)"
FAULTS = ["solver-raise", "solver-raise-after", "solver-status",
          "solver-lost", "solver-maxiters", "interrupt",
          "electrode-raises-before", "electrode-nan"]
PROBES = ["repeated-operation", "same-failure", "after-edit", "after-fault",
          "options-differ-from-previous", "caller-options"]
ASSUMPTIONS = []
SHRINK = ("ops",)


def gen(rng, idx):
    systems, ctrs = optim.gen_world(rng)
    ops = []
    for _ in range(rng.randint(2, 7)):
        r = rng.random()
        done = [o for o in ops if o["op"] != "edit"]
        if r < .15:
            ops.append({"op": "edit", "e": optim.gen_edit(rng, systems, ctrs)})
            continue
        if r < .35 and done:
            o = copy.deepcopy(rng.choice(done))
            if rng.random() < .5:
                o["opts"] = rng.choice(optim.OPTS)
        else:
            o = optim.gen_op(rng, systems, ctrs)
        o["fault"] = optim.gen_fault(rng, o) if rng.random() < .3 else None
        ops.append(o)
    return {"systems": systems, "ctrs": ctrs, "ops": ops,
            "glob": rng.choice([{}, {}, {}, {"maxiters": 60},
                                {"abstol": 1e-8, "show_progress": True}])}


def outcome(res, err, ss):
    if err is not None:
        r = ("raise", type(err).__name__, None)
    elif isinstance(res, tuple):
        r = ("ok", np.asarray(res[0]), float(np.asarray(res[1]).ravel()[0]))
    else:
        r = ("ok", np.asarray(res), 0.)
    return r + ([sorted(o.items()) for o in ss.options], ss.results)


class Null(object):
    faults, nontrivial = {}, False

    def __getattr__(self, k):
        return lambda *a, **k: None


def pristine(plan, k):
    """Outcome of operation k alone, on fresh objects, in a process that did
    nothing before."""
    import cvxopt
    cvxopt.solvers.options.clear()
    cvxopt.solvers.options.update(plan["glob"])
    b = optim.Bench(plan)
    for o in plan["ops"][:k]:
        if o["op"] == "edit":
            b.edit(o["e"])
    # entirely new objects with the edited content
    b = optim.Bench({"systems": b.specs, "ctrs": b.ctrs})
    return outcome(*optim.attempt(b, plan["ops"][k], Null(),
                                  faulty=False)[:3])


def execute(plan, sim):
    import cvxopt
    go = cvxopt.solvers.options
    go.clear()
    go.update(plan["glob"])
    if plan["glob"]:
        sim.probe("caller-options")
    want = {k: core.apart.ask(pristine, plan, k) for k, o in enumerate(plan["ops"])
            if o["op"] != "edit" and not o["fault"]}
    bench = optim.Bench(plan)
    prev = ("start",)
    seen = []
    try:
        for k, o in enumerate(plan["ops"]):
            if o["op"] == "edit":
                bench.edit(o["e"])
                prev = ("edit",)
                continue
            where = "op %d %s" % (k, o["op"])
            res, err, ss, it = optim.attempt(bench, o, sim)
            got = outcome(res, err, ss)
            key = got[1] if err is not None else "ok"
            sim.log(where, key, ss.results)
            if k in want:
                compare(sim, got, want[k], where)
                if err is not None:
                    sim.probe("same-failure")
                if prev[0] == "edit":
                    sim.probe("after-edit")
                if prev[0] == "fault":
                    sim.probe("after-fault")
                sig = {a: o[a] for a in o if a not in ("fault", "opts")}
                if sig in seen:
                    sim.probe("repeated-operation")
                seen.append(sig)
                if len(prev) > 3 and prev[3] != o["opts"]:
                    sim.probe("options-differ-from-previous")
                sim.state(prev[:3], o["op"], key)
            prev = ("fault" if o["fault"] else "op", o["op"], key, o["opts"])
    finally:
        go.clear()


def compare(sim, got, want, where):
    sim.check(got[3] == want[3], "options-leaked", lambda: "%s: the solver "
              "was given %s, alone it gets %s" % (where, got[3], want[3]))
    sim.check(got[0] == want[0] and got[4] == want[4], "history-dependence",
              lambda: "%s: %s %s, alone: %s %s" % (
                  where, got[0], (got[1] if got[0] == "raise" else "",
                                  got[4]),
                  want[0], (want[1] if want[0] == "raise" else "", want[4])))
    if got[0] == "raise":
        sim.check(got[1] == want[1], "history-dependence", lambda:
                  "%s: fails with %s, alone with %s" % (
                      where, got[1], want[1]))
        return
    for i, nm in ((1, "voltages"), (2, "strength")):
        sim.close(got[i], want[i], "history-dependence", "%s %s" % (
            where, nm), rtol=1e-6, atol=1e-7)
