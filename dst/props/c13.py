"""Work sent to worker pools gives the serial answer."""
import contextlib
import copy
import heapq
import io
import pickle

import numpy as np

from .. import core, optim, world
from ..core import HarnessError, Interrupter, is_injected
from .c03 import Snapshot

ID = "C13"
RUNS = {"quick": 3000, "thorough": 90000}
BATCH = 20
RULE = ("A run dispatches a random set of method calls on systems, "
        "electrodes, geometry and constraints, alone or in chunks, to a "
        "simulated worker pool that pickles everything both ways, delays, "
        "reorders, duplicates, truncates and retries messages and kills "
        "workers before, in the middle of (at a random line) and after "
        "calls, while the caller changes its objects; or exercises the "
        "synchronous stand-in pool. Non-trivial: a message was reordered, "
        "duplicated or lost, or a worker died.")
REAL = ["apply_method, DummyPool", "System, electrodes, Polygons, "
        "constraints and their pickling", "pickle"]
STUB = ["worker pool, its transport and clock (simulated; workers run in "
        "one process on unpickled private copies)",
        "analytic harmonic electrodes", "failing electrode wrapper"]
STATE_MEASURE = ("distinct (call, pickle protocol, attempts, fate of the "
                 "attempts, outcome)")
TIME_UNIT = "virtual seconds of the simulated pool"
FAULTS = ["crash-before", "crash-after", "crash-during", "duplicate",
          "truncated-request", "truncated-reply", "call-fails",
          "reordered", "dummy-raises", "dummy-interrupt"]
PROBES = ["retried", "changed-after-dispatch", "chunk", "returned-object",
          "same-failure", "old-protocol", "repeated-electrode",
          "dummy-repeated-get", "inline", "dummy-not-collected", "dummy-nested",
          "worker-mutated-its-copy"]
ASSUMPTIONS = ["pickle protocols 2 and later (slots need it)"]
CALLS = ["potential", "electrical", "individual", "time", "pseudo", "epot",
         "epot", "minimum", "modes", "group", "optimize", "shims", "orient",
         "poly", "names", "mutate", "constraint"]


def gen(rng, idx):
    if rng.random() < .25:
        return gen_dummy(rng)
    els = [[world.gen_spec(rng, "HHPQCMG", 4), world.gen_volt(rng),
            world.gen_volt(rng)] for _ in range(rng.randint(2, 6))]
    if rng.random() < .4:
        els = [[s, world.rnd(rng, -1, 1), world.rnd(rng, -1, 1)]
               for s in optim.gen_els(rng)]
    ctrs = [optim.gen_pot(rng, value=rng.choice([1, 1., -1, .5])),
            {"t": "range", "min": -1, "max": 1, "index": None}]
    if rng.random() < .4:
        ctrs.append(optim.gen_pot(rng, value=0))
    if rng.random() < .5:
        ctrs.append(optim.gen_pot(rng))
        if "offset" in ctrs[-1] and rng.random() < .7:
            ctrs[-1]["offset"] = rng.choice([.003, -.005, .01])
    if rng.random() < .3:
        ctrs.append(optim.gen_multi(rng, value=0))
    if rng.random() < .3:
        ctrs.append(optim.gen_vd(rng, len(els)))
    ops = []
    for _ in range(rng.randint(2, 9)):
        r = rng.random()
        if r < .75:
            o = {"op": "call", "jobs": [gen_job(rng) for _ in range(
                rng.choice([1, 1, 1, 1, 2, 3]))],
                "proto": rng.choice([2, 3, 4, 5]),
                "fates": [], "delay": rng.randint(0, 20)}
            for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3])):
                o["fates"].append(rng.choice([
                    ["crash-before"], ["crash-after"],
                    ["crash-during", rng.randint(1, 120)], ["duplicate"],
                    ["truncated-request", round(rng.random(), 3)],
                    ["truncated-reply", round(rng.random(), 3)]]))
            ops.append(o)
        elif r < .82:
            # in the caller's own process, again after changes
            old = [o for o in ops if o["op"] == "inline"]
            j = dict(gen_job(rng), fault=None)
            while j["call"] == "mutate":
                j = dict(gen_job(rng), fault=None)
            ops.append(copy.deepcopy(rng.choice(old)) if old and rng.random()
                       < .6 else {"op": "inline", "job": j})
            if rng.random() < .5:
                ops.append({"op": "change", "what": rng.choice(
                    ["dc", "rf", "swap", "coeff"]), "i": rng.randint(0, 9),
                    "j": rng.randint(0, 9), "v": world.gen_volt(rng)})
                ops.append(copy.deepcopy(ops[-2]))
        else:
            ops.append({"op": "change", "what": rng.choice(
                ["dc", "rf", "name", "append", "remove", "swap",
                 "repeat", "coeff"]), "i": rng.randint(0, 9),
                "j": rng.randint(0, 9), "v": world.gen_volt(rng)})
    return {"mode": "pool", "els": els, "ctrs": ctrs, "ops": ops,
            "workers": rng.randint(1, 3), "coeff": rng.choice([1., .5])}


def gen_job(rng):
    return {"call": rng.choice(CALLS), "x": world.gen_points(rng),
            "d": rng.randint(0, 4), "k": rng.randint(0, 9),
            "typ": rng.choice(["dc", "rf"]),
            "fault": [rng.randint(0, 9), rng.randint(0, 3),
                      rng.choice(["Injected", "ValueError", "RuntimeError",
                                  "MemoryError", "KeyError"])]
            if rng.random() < .1 else None}


def gen_dummy(rng):
    ops = []
    for _ in range(rng.randint(1, 12)):
        r = rng.random()
        if r < .5:
            ops.append(["apply", rng.choice(
                ["value", "list", "raise", "args", "method", "nested",
                 "none", "system", "raise-none"]),
                rng.choice(["ValueError", "Injected", "KeyError",
                            "StopIteration", "MemoryError"]),
                rng.randint(0, 9)])
        elif r < .55:
            ops.append(["apply", "base", rng.choice(
                ["KeyboardInterrupt", "InjectedBase"]), 0])
        else:
            ops.append(["get", rng.randint(0, 12)])
    return {"mode": "dummy", "ops": ops}


SHRINK = ("ops", "els")


def shrink(plan):
    if plan["mode"] != "pool":
        return
    for k, o in enumerate(plan["ops"]):
        if o["op"] != "call":
            continue
        for i in range(len(o["fates"])):
            c = copy.deepcopy(plan)
            del c["ops"][k]["fates"][i]
            yield c
        if len(o["jobs"]) > 1:
            for i in range(len(o["jobs"])):
                c = copy.deepcopy(plan)
                del c["ops"][k]["jobs"][i]
                yield c
        if o["delay"]:
            c = copy.deepcopy(plan)
            c["ops"][k]["delay"] = 0
            yield c


# ------------------------------------------------------------ dummy pool

def execute_dummy(plan, sim):
    from electrode.utils import DummyPool, apply_method
    pool = DummyPool()
    done = []       # (handle, calls, expected, exception type)
    total = [0]

    def check_counts():
        for i, d in enumerate(done):
            sim.check(d["n"] == 1, "not-exactly-once", lambda: "call %d was "
                      "run %d times" % (i, d["n"]))

    for k, op in enumerate(plan["ops"]):
        where = "op %d %s" % (k, op[:3])
        if op[0] == "apply":
            d = {"n": 0, "exc": None, "val": None, "got": 0}
            kind = op[1]

            def f(*args, **kwargs):
                d["n"] += 1
                d["args"] = (args, kwargs)
                if kind in ("raise", "base"):
                    d["exc"] = core.make_exc(op[2])
                    raise d["exc"]
                if kind == "nested":
                    sim.probe("dummy-nested")
                    d["val"] = pool.apply_async(g, (3,)).get()
                elif kind == "none":
                    d["val"] = None
                elif kind == "args":
                    d["val"] = (args, sorted(kwargs.items()))
                elif kind == "value" and op[3] < 5:
                    d["val"] = [0, [], "", False, 0.][op[3]]
                else:
                    d["val"] = [total[0], op[3]]
                total[0] += 1
                return d["val"]

            def g(x):
                return [x]

            class T(object):
                meth = staticmethod(f)

            args, kw = (), {}
            call = f
            if kind == "args":
                args, kw = (1, op[3]), {"a": 2}
            elif kind == "method":
                call, args = apply_method, (T(), "meth", op[3])
            h = err = None
            try:
                if kw:
                    h = pool.apply_async(call, args, kw)
                elif args:
                    h = pool.apply_async(call, args)
                else:
                    h = pool.apply_async(call)
            except BaseException as e:
                err = e
            if kind == "base":
                # not an ordinary failure: may come at once or at get
                sim.fault("dummy-interrupt")
                sim.check(d["n"] == 1, "not-exactly-once", where)
                if err is not None:
                    sim.check(err is d["exc"], "failure-replaced", lambda:
                              "%s raised %r" % (where, err))
                    continue
            sim.check(err is None, "failure-misplaced", lambda: "%s: "
                      "apply_async raised %r" % (where, err))
            if d["exc"] is not None:
                sim.fault("dummy-raises")
            d["h"] = h
            done.append(d)
            sim.log("apply", kind, d["n"])
        elif done:
            i = op[1] % len(done)
            d = done[i]
            ret = err = None
            try:
                ret = d["h"].get()
            except BaseException as e:
                err = e
            d["got"] += 1
            if d["got"] > 1:
                sim.probe("dummy-repeated-get")
                sim.nontrivial = True
            sim.log("get", i, type(err).__name__ if err else "ok")
            if d["exc"] is not None:
                sim.check(type(err) is type(d["exc"]) and err.args
                          == d["exc"].args, "failure-swallowed", lambda:
                          "%s of call %d gave %r instead of %r" % (
                              where, i, err or ret, d["exc"]))
            else:
                sim.check(err is None, "unexpected-failure",
                          lambda: "%s of call %d raised %r" % (where, i, err))
                sim.check(ret is d["val"] or ret == d["val"],
                          "wrong-result", lambda: "%s of call %d gave %r "
                          "instead of %r" % (where, i, ret, d["val"]))
            sim.state("get", i, d["got"], d["exc"] is None)
    check_counts()
    if any(not d["got"] for d in done):
        sim.probe("dummy-not-collected")


# ------------------------------------------------------------ pool

def build_call(job, S, objs, ctrs):
    """(receiver, method name, args, kwargs)"""
    from electrode.polygons import Polygons
    c = job["call"]
    x = np.array(job["x"], float)
    if c == "potential":
        return S, "potential", (x, job["d"] % 3), {"typ": job["typ"]}
    if c == "electrical":
        return S, "electrical_potential", (x, job["d"], job["typ"]), {
            "expand": bool(job["k"] % 2)}
    if c == "individual":
        return S, "individual_potential", (x, job["d"]), {}
    if c == "time":
        return S, "time_potential", (x, job["d"] % 4, .3*job["k"]), {}
    if c == "pseudo":
        return S, "pseudo_potential", (x, job["d"] % 3), {}
    if c in ("epot", "orient"):
        e = list(S)[job["k"] % len(S)]
        if c == "orient":
            return e, "orientations", (), {}
        return e, "potential", (x, job["d"]), {"potential": 2.5}
    if c == "minimum":
        return S, "minimum", (x[0],), {"method": "Nelder-Mead", "options": {
            "maxiter": 12}} if job["k"] % 2 else {"method": "Newton-CG"}
    if c == "modes":
        return S, "modes", (x[0],), {}
    if c == "group":
        return S, "group", (), {"thresholds": [-1., 0., 1.]}
    if c == "optimize":
        return S, "optimize", (list(ctrs),), {"verbose": False}
    if c == "shims":
        return S, "shims", ([(x[0], None, "x"), (x[0], None, "zz")],), {}
    if c == "names":
        return S, "__getattribute__", (["names", "dcs", "rfs"][job["k"] % 3],
                                       ), {}
    if c == "mutate":
        # changes the worker's copy, not ours
        return S, ["reverse", "clear", "pop"][job["k"] % 3], (), {}
    if c == "constraint":
        return ctrs[0], "get", (S, None), {}
    if c == "poly":
        P = Polygons.from_system(S)
        return P, ["to_system", "unify", "remove_overlaps", "validate",
                   "simplify"][job["k"] % 5], (), {}
    raise HarnessError(c)


def run_job(call, serial=False):
    from electrode.utils import apply_method
    if serial:
        def apply_method(o, name, *args, **kwargs):
            return getattr(o, name)(*args, **kwargs)
    with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        return apply_method(call[0], call[1], *call[2], **call[3])


def outcome(call, serial=False):
    try:
        return ("ok", run_job(call, serial))
    except Exception as e:
        return ("raise", e)


def describe(v, depth=0):
    """comparable description: [(path, array or plain)]"""
    if depth > 8:
        return "..."
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return [describe(i, depth+1) for i in v]
        return v
    if isinstance(v, (str, bytes, int, float, complex, bool, type(None),
                      np.generic)):
        return v
    if isinstance(v, dict):
        return ("dict", [(str(k), describe(x, depth+1)) for k, x in sorted(
            v.items(), key=lambda kv: str(kv[0]))])
    t = type(v).__name__
    out = [t]
    if hasattr(v, "wkb") and hasattr(v, "geom_type"):
        return (t, v.wkt)
    if isinstance(v, (list, tuple)):
        out += [describe(i, depth+1) for i in list(v)]
    if isinstance(v, BaseException):
        return (t, str(v))
    slots = set()
    for c in type(v).__mro__:
        s = c.__dict__.get("__slots__", ())
        slots.update([s] if isinstance(s, str) else s)
    at = dict(getattr(v, "__dict__", {}))
    for s in slots:
        if hasattr(v, s) and not s.startswith("__"):
            at[s] = getattr(v, s)
    for k in ("sim", "on_call", "script", "calls", "always", "armed",
              "fired"):
        at.pop(k, None)
    # (private attributes may be caches that stay behind)
    at = {k: x for k, x in at.items() if not k.startswith("_")}
    if not isinstance(v, (list, tuple)) and not at:
        return t
    return (tuple(out[:1]), out[1:], [(k, describe(x, depth+1))
                                      for k, x in sorted(at.items())])


def agree(sim, got, want, kind, where, tol=1e-9):
    if isinstance(want, np.ndarray) or isinstance(want, (float, np.floating)):
        sim.check(isinstance(got, np.ndarray) == isinstance(
            want, np.ndarray), kind, where)
        sim.check(getattr(got, "dtype", None) == getattr(
            want, "dtype", None), kind, lambda: "%s dtype %s, not %s" % (
                where, getattr(got, "dtype", None),
                getattr(want, "dtype", None)))
        sim.close(got, want, kind, where, rtol=tol, atol=1e-12)
    elif isinstance(want, (list, tuple)):
        sim.check(type(got) is type(want) and len(got) == len(want), kind,
                  lambda: "%s: %.200r instead of %.200r" % (where, got,
                                                            want))
        for g, w in zip(got, want):
            agree(sim, g, w, kind, where, tol)
    else:
        sim.check(got == want, kind, lambda: "%s: %.200r instead of %.200r"
                  % (where, got, want))


def wandering(job, out):
    """A long search that failed or went far away amplifies rounding."""
    if job["call"] != "minimum" or job["k"] % 2:
        return False
    if out[0] != "ok":
        return True
    x = np.asarray(out[1], float)
    return not (x.shape == (3,) and np.abs(x).max() < 10)


def identities(S):
    """aliasing pattern of the electrodes in a list"""
    ids = [id(e) for e in list(S)]
    return [ids.index(i) for i in ids]


def execute(plan, sim):
    if plan["mode"] == "dummy":
        return execute_dummy(plan, sim)
    if not plan["els"]:
        return
    C = world.classes()
    objs = [C.Faulty(world.make_inner(s, name="e%d" % i), name="e%d" % i,
                     dc=dc, rf=rf) if i % 2 else
            world.make_inner(s, name="e%d" % i, dc=dc, rf=rf)
            for i, (s, dc, rf) in enumerate(plan["els"])]
    S = C.System(objs)
    S.rf_coeff = plan["coeff"]
    ctrs = [optim.make(c) for c in plan["ctrs"]]
    heap, seq = [], [0]
    now = 0.
    tickets = []

    def push(t, what):
        seq[0] += 1
        heapq.heappush(heap, (t, seq[0], what))

    class Ticket(object):
        pass

    # dispatch, with the caller changing things in between
    for k, o in enumerate(plan["ops"]):
        where = "op %d" % k
        now += .5
        if o["op"] == "change":
            change(o, S, objs, sim)
            if tickets:
                sim.probe("changed-after-dispatch")
            continue
        if not len(S):
            continue
        if o["op"] == "inline":
            inline(o["job"], S, objs, ctrs, sim, where)
            continue
        T = Ticket()
        T.k, T.o, T.replies, T.attempts = k, o, [], 0
        for j in o["jobs"]:
            f = j["fault"]
            e = list(S)[f[0] % len(S)] if f else None
            if f and isinstance(e, C.Faulty):
                e.script, e.calls = {f[1]: ("before", f[2])}, 0
                e.sim = NullSim()
        if len(o["jobs"]) > 1:
            # would be seen by the other calls of its chunk
            o = dict(o, jobs=[dict(j, call="names") if j["call"] == "mutate"
                              else j for j in o["jobs"]])
            T.o = o
        T.calls = [build_call(j, S, objs, ctrs) for j in o["jobs"]]
        if len(T.calls) > 1:
            sim.probe("chunk")
        snap = Snapshot(S, [("constraints", ctrs)])
        # the objects as they are dispatched
        want = describe(T.calls)
        try:
            T.request = pickle.dumps(T.calls, o["proto"])
        except Exception as e:
            raise core.Violation("not-dispatchable", "%s: %s can not be sent: "
                                 "%s" % (where, [j["call"] for j in
                                                 o["jobs"]],
                                         core.short_tb(e)))
        back = pickle.loads(T.request)
        agree(sim, describe(back), want, "altered-in-transit",
              where + ": objects after sending")
        for a, b in zip(back, T.calls):
            if isinstance(b[0], C.System):
                sim.check(identities(a[0]) == identities(b[0]),
                          "altered-in-transit", where + ": electrodes that "
                          "occur repeatedly")
        msg = snap.diff(S)
        sim.check(msg is None, "caller-changed", lambda: "%s: %s by sending"
                  % (where, msg))
        # the serial answer, now, on the caller's own objects
        T.want = []
        for c, j in zip(T.calls, o["jobs"]):
            if j["call"] == "mutate":
                c = (copy.copy(S),) + c[1:]
                c[0].__dict__.update(S.__dict__)
            calls0 = [getattr(e, "calls", 0) for e in objs]
            for e in objs:
                if isinstance(e, C.Faulty):
                    e.calls = 0
            r = outcome(c, serial=True)
            T.want.append((r[0], describe(r[1]), r[1]
                           if r[0] == "raise" else None))
        for e in objs:
            if isinstance(e, C.Faulty):
                e.disarm()
                e.sim, e.calls = None, 0
        T.due = now
        tickets.append(T)
        push(now + .1*o["delay"], ("attempt", T))
        sim.log("dispatch", k, [j["call"] for j in o["jobs"]])
    order = []
    snap = Snapshot(S, [("constraints", ctrs)]) if len(S) else None
    # delivery
    steps = 0
    while heap:
        steps += 1
        if steps > 500:
            raise core.Violation("stuck", "results do not arrive")
        now, _, (what, T) = heapq.heappop(heap)
        sim.now = max(sim.now, now)
        fate = T.o["fates"][T.attempts:T.attempts+1] or [["ok"]]
        fate = fate[0]
        T.attempts += 1
        if T.attempts > 1:
            sim.probe("retried")
        if order and T.k < max(order):
            sim.fault("reordered")
        order.append(T.k)
        again = now + 1.
        req = T.request
        if fate[0] == "crash-before":
            sim.fault("crash-before")
            push(again, ("attempt", T))
            continue
        if fate[0] == "truncated-request":
            n = int(fate[1]*(len(req)-1))
            sim.fault("truncated-request")
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    pickle.loads(req[:n])
            except Exception:
                pass
            else:
                raise core.Violation("accepted-torn", "a request cut to %d "
                                     "of %d bytes is accepted" % (n,
                                                                  len(req)))
            push(again, ("attempt", T))
            continue
        reply = work(req, T, sim, fate)
        if reply is None:
            push(again, ("attempt", T))
            continue
        if fate[0] == "duplicate":
            sim.fault("duplicate")
            push(now + .35, ("attempt", T))
        if fate[0] == "crash-after":
            sim.fault("crash-after")
            push(again, ("attempt", T))
            continue
        if fate[0] == "truncated-reply":
            sim.fault("truncated-reply")
            try:
                pickle.loads(reply[:int(fate[1]*(len(reply)-1))])
            except Exception:
                pass
            else:
                raise core.Violation("accepted-torn", "torn reply")
            push(again, ("attempt", T))
            continue
        T.replies.append(reply)
    # collect
    for T in tickets:
        where = "op %d" % T.k
        sim.check(len(T.replies) > 0, "lost", where + ": no result")
        for reply in T.replies:
            try:
                got = pickle.loads(reply)
            except Exception as e:
                raise core.Violation("not-returnable", "%s: %s" % (
                    where, core.short_tb(e)))
            for g, w, j in zip(got, T.want, T.o["jobs"]):
                key = "%s %s" % (where, j["call"])
                sim.state(j["call"], T.o["proto"], T.attempts,
                          [f[0] for f in T.o["fates"]], w[0])
                sim.log(key, g[0])
                if wandering(j, g) or wandering(j, w):
                    continue
                sim.check(g[0] == w[0], "differs-from-serial", lambda:
                          "%s: %s %.200r, serially %s %.200r" % (
                              key, g[0], g[1], w[0], w[1]))
                if w[0] == "raise":
                    sim.probe("same-failure")
                    if j["fault"]:
                        sim.fault("call-fails")
                    sim.check(type(g[1]) is type(w[2]),
                              "differs-from-serial", lambda: "%s: fails "
                              "with %r, serially with %r" % (key, g[1],
                                                             w[2]))
                    continue
                agree(sim, describe(g[1]), w[1], "differs-from-serial", key,
                      tol=1e-6)
                if j["call"] in ("group", "poly"):
                    sim.probe("returned-object")
                if j["call"] == "mutate":
                    sim.probe("worker-mutated-its-copy")
    if snap:
        msg = snap.diff(S)
        sim.check(msg is None, "caller-changed", lambda: "%s by the workers"
                  % msg)


def hashable(v):
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, list):
        return tuple(map(hashable, v))
    return v


def inline(job, S, objs, ctrs, sim, where):
    """The stand-in pool, on the caller's live objects."""
    from electrode.utils import DummyPool, apply_method
    call = build_call(job, S, objs, ctrs)
    if job["call"] not in ("optimize", "shims", "group"):
        call = call[:2] + (hashable(list(call[2])),) + call[3:]
    snap = Snapshot(S, [("constraints", ctrs)])
    got = want = None
    with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        try:
            got = ("ok", describe(DummyPool().apply_async(
                apply_method, call[:2] + call[2], call[3]).get()))
        except Exception as e:
            got = ("raise", type(e).__name__)
    msg = snap.diff(S)
    sim.check(msg is None, "caller-changed", lambda: "%s inline: %s" % (
        where, msg))
    want = outcome(call, serial=True)
    want = ("ok", describe(want[1])) if want[0] == "ok" else (
        "raise", type(want[1]).__name__)
    sim.probe("inline")
    sim.log("inline", job["call"], got[0])
    if wandering(job, got) or wandering(job, want):
        return
    sim.check(got[0] == want[0], "differs-from-serial", lambda: "%s inline "
              "%s: %.200r, serially %.200r" % (where, job["call"], got, want))
    agree(sim, got[1], want[1], "differs-from-serial",
          where + " inline " + job["call"],
          tol=1e-6 if job["call"] == "minimum" else 1e-9)


class NullSim(object):
    def fault(self, *a):
        pass


def work(req, T, sim, fate):
    """A worker: unpickles, calls, pickles."""
    calls = pickle.loads(req)
    if fate[0] == "crash-during":
        it = Interrupter(fate[1], "InjectedBase")
        try:
            it.run(lambda: [outcome(c) for c in calls])
        except BaseException as e:
            if not is_injected(e):
                raise
        sim.fault("crash-during")
        return None
    out = []
    for c in calls:
        for e in faulty_in(c):
            e.calls = 0
        r = outcome(c)
        if r[0] == "raise":
            # tracebacks stay behind, like in multiprocessing
            r = ("raise", r[1].with_traceback(None))
        out.append(r)
    try:
        return pickle.dumps(out, T.o["proto"])
    except Exception as e:
        raise core.Violation("not-returnable", "op %d: %s" % (
            T.k, core.short_tb(e)))


def faulty_in(call):
    C = world.classes()
    if isinstance(call[0], C.Faulty):
        yield call[0]
    for c in call[:1] + call[2][:1]:
        if isinstance(c, C.System):
            for e in list(c):
                if isinstance(e, C.Faulty):
                    yield e


def change(o, S, objs, sim):
    w = o["what"]
    if w == "coeff":
        S.rf_coeff = .25*(1+o["i"])
        return
    if w == "append":
        S.append(objs[o["i"] % len(objs)])
        return
    if not len(S):
        return
    i, j = o["i"] % len(S), o["j"] % len(S)
    e = list(S)[i]
    if w in ("dc", "rf"):
        setattr(e, w, o["v"])
    elif w == "name":
        e.name = "n%d" % o["j"]
    elif w == "remove":
        if len(S) > 2:
            del S[i]
    elif w == "swap":
        S[i], S[j] = list(S)[j], e
    elif w == "repeat":
        S.insert(j, e)
        sim.probe("repeated-electrode")
