"""Temporary voltage overrides are always rolled back."""
import copy
import heapq

import numpy as np

from .. import core, world
from ..core import HarnessError, is_injected, make_exc

ID = "C01"
RUNS = {"quick": 6000, "thorough": 120000}
BATCH = 25
RULE = ("A run is a set of tasks (coroutines on a virtual-time loop sharing "
        "one system) executing random nested programs of overrides, direct "
        "writes, list edits, evaluations and waits. Non-trivial: at least one "
        "fault (failing iterable, failing electrode, exception, interrupt, "
        "cancellation, abandonment) fired while an override was being applied "
        "or in effect.")
REAL = ["System", "System.with_voltages", "electrodes", "potential "
        "evaluation under interrupts"]
STUB = ["event loop and clock (virtual)", "hardware-backed electrodes with "
        "failing voltage access"]
STATE_MEASURE = ("distinct (override stack shape, operation, fault, exit "
                 "kind) tuples")
TIME_UNIT = "virtual seconds"
FAULTS = ["apply-iterable-raises", "apply-hardware-get", "apply-hardware-set",
          "apply-hardware-setafter", "body-raises", "cancel-throw",
          "cancel-close", "abandon", "eval-interrupted", "electrode-raises"]
PROBES = ["nested", "both-kinds", "list-edited-inside", "short-values",
          "sub-system", "two-tasks-queued"]
ASSUMPTIONS = ["overrides of one system are entered and left in nested order "
               "(tasks sharing a system take a lock, as they must)"]

EXITS = ["Injected", "InjectedBase", "ValueError", "KeyboardInterrupt",
         "SystemExit", "StopIteration", "GeneratorExit", "MemoryError"]
ASYNC = ["KeyboardInterrupt", "MemoryError", "InjectedBase", "OSError"]


# ---------------------------------------------------------------- plans

def gen_override(rng, n):
    """[form, values, raise_at, exc] or None"""
    m = rng.choice([n, n, n, n, max(0, n-1), rng.randint(0, n), n+2])
    form = rng.choice(["list", "list", "array", "tuple", "iter", "scaled"])
    ra = None
    if rng.random() < .2:
        form, ra = "iter", rng.randint(0, max(1, m))
    vals = [world.gen_volt(rng) for _ in range(m)]
    if rng.random() < .12:
        vals = [0.]*m
    return [form, vals, ra,
            rng.choice(EXITS[:4] + ["MemoryError"])]


def gen_with(rng, n, depth):
    which = rng.choice(["dc", "rf", "both", "both", "none"])
    o = {"dcs": None, "rfs": None, "sub": None, "arm": None}
    if rng.random() < .2 and n > 1:
        o["sub"] = sorted(rng.sample(range(n), rng.randint(1, n)))
    k = len(o["sub"]) if o["sub"] else n
    if which in ("dc", "both"):
        o["dcs"] = gen_override(rng, k)
    if which in ("rf", "both"):
        o["rfs"] = gen_override(rng, k)
    if rng.random() < .25:
        o["arm"] = [rng.randint(0, n-1), rng.choice(["set", "set", "setafter",
                                                     "get"]),
                    rng.choice(["dc", "rf"]), rng.choice(ASYNC + ["ValueError"])]
    body = gen_body(rng, n, depth+1)
    if rng.random() < .4:
        body.insert(rng.randint(0, len(body)),
                    ["sleep", round(rng.uniform(0, 2), 2)])
    r = rng.random()
    if r < .3:
        body.append(["raise", rng.choice(EXITS)])
    elif r < .4:
        body.append(["return"])
    return ["with", o, body]


def gen_body(rng, n, depth):
    out = []
    for _ in range(rng.randint(1, 3 if depth else 4)):
        r = rng.random()
        if r < (.45 if depth == 0 else .22 if depth < 3 else 0):
            out.append(gen_with(rng, n, depth))
            if rng.random() < .6:
                out[-1] = ["try", [out[-1]]]
        elif r < .5:
            out.append(["set", rng.randint(0, n+1), rng.choice(["dc", "rf"]),
                        world.gen_volt(rng)])
        elif r < .56:
            out.append(["setall", rng.choice(["dcs", "rfs"]),
                        [world.gen_volt(rng) for _ in range(n)]])
        elif r < .70:
            out.append(["sleep", round(rng.uniform(0, 2), 2)])
        elif r < .74:
            out.append(["eval", rng.randint(0, 2), rng.choice(["dc", "rf"])])
        elif r < .80:
            out.append(["evalint", rng.randint(0, 2), round(rng.random(), 3),
                        rng.choice(ASYNC)])
        elif r < .84:
            out.append(["evalfail", rng.randint(0, n-1), rng.choice(ASYNC)])
        elif r < .90:
            out.append(["edit", rng.choice(["append", "pop", "swap", "reverse",
                                            "insert"]),
                        rng.randint(0, n), rng.randint(0, n)])
        elif r < .97 and depth < 3:
            out.append(["try", gen_body(rng, n, depth+1)])
        else:
            out.append(["read"])
    return out


def gen(rng, idx):
    n = rng.randint(1, 5)
    els = []
    for i in range(n):
        els.append([rng.choice(["plain", "plain", "touchy", "faulty"]),
                    {"t": "H", "f": [[1, 0, 1.]], "g": [[0, 0, 1.]]}
                    if rng.random() < .7 else world.gen_spec(rng, "PQC"),
                    world.gen_volt(rng), world.gen_volt(rng)])
    tasks = [gen_body(rng, n, 0) for _ in range(rng.choice([1, 1, 2, 3]))]
    cancels = []
    for t in range(len(tasks)):
        if rng.random() < .6:
            cancels.append([round(rng.uniform(0, 4), 2), t,
                            rng.choice(["throw", "throw", "close", "drop"]),
                            rng.choice(["InjectedBase", "KeyboardInterrupt",
                                        "Injected", "GeneratorExit"])])
    return {"els": els, "tasks": tasks, "cancels": cancels,
            "names": rng.choice([9, 9, 2, 1, 0])}


def name(plan, i):
    """Names need not be distinct."""
    return "e%d" % (i % plan["names"]) if plan["names"] else ""


SHRINK = ("cancels", "tasks")


def _lists(x, path=()):
    """All statement lists below x, as (path) getters."""
    for i, s in enumerate(x):
        if s and s[0] == "with":
            yield path + (i, 2)
            yield from _lists(s[2], path + (i, 2))
        elif s and s[0] == "try":
            yield path + (i, 1)
            yield from _lists(s[1], path + (i, 1))


def _at(x, path):
    for p in path:
        x = x[p]
    return x


def shrink(plan):
    for t in range(len(plan["tasks"])):
        body = plan["tasks"][t]
        for path in [()] + list(_lists(body)):
            lst = _at(body, path)
            for i in range(len(lst)):
                c = copy.deepcopy(plan)
                del _at(c["tasks"][t], path)[i]
                yield c
                if lst[i][0] in ("with", "try"):
                    c = copy.deepcopy(plan)
                    _at(c["tasks"][t], path)[i:i+1] = copy.deepcopy(
                        lst[i][2 if lst[i][0] == "with" else 1])
                    yield c
                if lst[i][0] == "with":
                    for k in ("arm", "sub", "dcs", "rfs"):
                        if lst[i][1][k] is not None:
                            c = copy.deepcopy(plan)
                            _at(c["tasks"][t], path)[i][1][k] = None
                            yield c
    if len(plan["els"]) > 1:
        for i in range(len(plan["els"])):
            c = copy.deepcopy(plan)
            del c["els"][i]
            yield c
    for i, e in enumerate(plan["els"]):
        if e[0] != "plain":
            c = copy.deepcopy(plan)
            c["els"][i][0] = "plain"
            yield c


# ---------------------------------------------------------------- world

class _Return(Exception):
    pass


class _Wait(object):
    def __init__(self, what, arg):
        self.what, self.arg = what, arg

    def __await__(self):
        yield self


class World(object):
    def __init__(self, plan, sim):
        self.sim = sim
        C = world.classes()
        self.C = C
        self.els = []
        self.model = {}
        for i, (kind, spec, dc, rf) in enumerate(plan["els"]):
            self.els.append(self.new(kind, spec, name(plan, i), dc, rf))
        self.system = C.System(self.els)
        self.stack = []         # snapshots of open overrides (all tasks)
        self.holder = None
        self.armed = None

    def new(self, kind, spec, name, dc, rf):
        C = self.C
        if kind == "plain":
            e = world.make_inner(spec, name=name, dc=dc, rf=rf)
        elif kind == "touchy":
            e = C.Touchy(world.make_inner(spec), name=name, dc=dc, rf=rf)
        else:
            e = C.Faulty(world.make_inner(spec), name=name, dc=dc, rf=rf)
        self.model[id(e)] = {"dc": dc, "rf": rf}
        self.els = getattr(self, "els", [])
        return e

    def known(self):
        return self.els

    def compare(self, kind, where):
        for e in self.els:
            m = self.model[id(e)]
            for k in ("dc", "rf"):
                v = getattr(e, k)
                self.sim.check(
                    v == m[k], kind,
                    lambda: "%s of electrode %r is %r, must be %r (%s)" % (
                        k, e.name, v, m[k], where))

    def state(self, what):
        self.sim.state([s[0] for s in self.stack], what)


def values(spec, sys_, attr, sim):
    form, vals, ra, exc = spec
    if form == "list":
        return list(vals), list(vals)
    if form == "tuple":
        return tuple(vals), list(vals)
    if form == "array":
        return np.array(vals, float), list(vals)
    if form == "scaled":
        cur = getattr(sys_, attr)
        return 2*cur, [2*float(v) for v in cur]

    def it():
        for i, v in enumerate(vals):
            if i == ra:
                sim.fault("apply-iterable-raises")
                raise make_exc(exc, "iterable")
            yield v
        if ra is not None and ra >= len(vals):
            sim.fault("apply-iterable-raises")
            raise make_exc(exc, "iterable")
    return it(), list(vals)


async def lock(w, me):
    if w.holder is None or w.holder == me:
        w.holder = me
        return
    w.sim.probe("two-tasks-queued")
    while w.holder is not None and w.holder != me:
        await _Wait("lock", me)
    w.holder = me


async def body(w, me, stmts, depth):
    for st in stmts:
        await stmt(w, me, st, depth)


async def stmt(w, me, st, depth):
    sim, S, op = w.sim, w.system, st[0]
    sim.log("stmt", me, op, depth)
    w.state(op)
    if op == "with":
        await do_with(w, me, st, depth)
    elif op == "set":
        if w.els:
            e = w.els[st[1] % len(w.els)]
            setattr(e, st[2], st[3])
            w.model[id(e)][st[2]] = st[3]
    elif op == "setall":
        setattr(S, st[1], st[2])
        for e, v in zip(list(S), st[2]):
            w.model[id(e)][st[1][:2]] = v
    elif op == "sleep":
        await _Wait("sleep", st[1])
    elif op == "raise":
        if w.stack:
            sim.fault("body-raises")
        raise make_exc(st[1], "body")
    elif op == "return":
        raise _Return()
    elif op == "try":
        try:
            await body(w, me, st[1], depth)
        except Exception as e:
            if not (is_injected(e) or isinstance(e, RuntimeError)):
                raise
    elif op == "read":
        want = [w.model[id(e)]["dc"] for e in S]
        sim.check(list(S.dcs) == want, "read-dcs",
                  lambda: "dcs %s, must be %s" % (list(S.dcs), want))
        want = [w.model[id(e)]["rf"] for e in S]
        sim.check(list(S.rfs) == want, "read-rfs",
                  lambda: "rfs %s, must be %s" % (list(S.rfs), want))
    elif op == "edit":
        if w.stack:
            sim.probe("list-edited-inside")
        kind, i, j = st[1:]
        if kind in ("append", "insert"):
            e = w.new("plain", {"t": "C", "height": 5.}, "n%d" % len(w.els),
                      1., 2.)
            w.els.append(e)
            S.append(e) if kind == "append" else S.insert(i, e)
        elif kind == "pop":
            if len(S):
                S.pop(i % len(S))
        elif kind == "reverse":
            S.reverse()
        elif len(S):
            a, b = list.__getitem__(S, i % len(S)), list.__getitem__(
                S, j % len(S))
            S[i % len(S)], S[j % len(S)] = b, a
    elif op == "eval":
        S.electrical_potential([[.3, .2, 1.]], st[1], st[2])
    elif op == "evalint":
        def ev():
            return S.electrical_potential([[.3, .2, 1.]], st[1], "dc")
        n = core.count_lines(ev)
        it = core.Interrupter(1 + int(st[2]*n), st[3])
        try:
            it.run(ev)
        finally:
            if it.fired:
                sim.fault("eval-interrupted")
    elif op == "evalfail":
        e = w.els[st[1] % len(w.els)] if w.els else None
        if isinstance(e, w.C.Faulty) and e in S:
            e.arm({}, sim)
            e.always = ("before", st[2])
            try:
                S.individual_potential([[.3, .2, 1.]], 0)
            finally:
                e.disarm()
                sim.fault("electrode-raises")
    else:
        raise HarnessError(op)


async def do_with(w, me, st, depth):
    sim, o = w.sim, st[1]
    mine = w.holder == me
    await lock(w, me)
    try:
        S = w.system
        if o["sub"]:
            els = [e for i, e in enumerate(S) if i in o["sub"]]
            S = w.C.System(els)
            sim.probe("sub-system")
        if w.stack:
            sim.probe("nested")
        if o["dcs"] and o["rfs"]:
            sim.probe("both-kinds")
        members = list(S)
        saved = [(e, dict(w.model[id(e)])) for e in members]
        args, want = {}, {}
        for attr in ("dcs", "rfs"):
            if o[attr]:
                spec = list(o[attr])
                if o["arm"]:
                    spec[2] = None      # one failure per override
                args[attr], want[attr] = values(spec, S, attr, sim)
                if len(want[attr]) < len(members):
                    sim.probe("short-values")
        tgt = None
        if o["arm"]:
            e = w.els[o["arm"][0] % len(w.els)] if w.els else None
            if isinstance(e, w.C.Touchy):
                e.armed, e.fired, tgt = o["arm"][1:], 0, e
        entered = False
        frame = (("dc" if o["dcs"] else "")+("rf" if o["rfs"] else ""), me)
        try:
            cm = S.with_voltages(**args)
            with cm:
                entered = True
                if tgt is not None:
                    tgt.armed = None
                w.stack.append(frame)
                # electrodes may appear twice in the list: later wins
                for attr in ("dcs", "rfs"):
                    if o[attr]:
                        for e, v in zip(members, want[attr]):
                            w.model[id(e)][attr[:2]] = v
                w.compare("not-in-effect", "inside the override")
                await body(w, me, st[2], depth+1)
                sim.log("exit", "normal")
        except _Return:
            sim.log("exit", "return")
            raise
        finally:
            if entered:
                w.stack.remove(frame)
            if tgt is not None:
                if tgt.fired:
                    sim.fault("apply-hardware-" + o["arm"][1])
                tgt.armed = None
            if entered or args:
                for e, m in saved:
                    for attr in ("dcs", "rfs"):
                        if o[attr]:
                            w.model[id(e)][attr[:2]] = m[attr[:2]]
            w.compare("not-restored", "after the override, entered=%s"
                      % entered)
    finally:
        if not mine and w.holder == me:
            w.holder = None


async def main(w, me, stmts):
    try:
        await body(w, me, stmts, 0)
    except _Return:
        pass


def execute(plan, sim):
    w = World(plan, sim)
    initial = list(w.els)
    heap, seq = [], 0
    tasks, waiting = {}, []
    for t, prog in enumerate(plan["tasks"]):
        tasks[t] = main(w, t, prog)
        heapq.heappush(heap, (0., seq, "step", t, None))
        seq += 1
    for c in plan["cancels"]:
        heapq.heappush(heap, (c[0], 10**6+seq, "cancel", c[1], c[2:]))
        seq += 1

    def done(t, e):
        tasks.pop(t, None)
        if t in waiting:
            waiting.remove(t)
        if w.holder == t:
            w.holder = None
        sim.log("task-end", t, type(e).__name__ if e else None)
        if e is not None and not is_injected(e) and not isinstance(
                e, (RuntimeError, StopIteration, GeneratorExit)):
            raise e
        w.compare("not-restored", "after task %d" % t)

    steps = 0
    while heap:
        at, _, what, t, arg = heapq.heappop(heap)
        steps += 1
        if steps > 2000:
            raise HarnessError("runaway plan")
        sim.now = max(sim.now, at)
        if t not in tasks:
            continue
        co = tasks[t]
        try:
            if what == "step":
                r = co.send(None)
            elif arg[0] == "throw":
                if any(f[1] == t for f in w.stack):
                    sim.fault("cancel-throw")
                r = co.throw(make_exc(arg[1], "cancel"))
            else:
                if any(f[1] == t for f in w.stack):
                    sim.fault("cancel-close" if arg[0] == "close"
                              else "abandon")
                tasks.pop(t)
                if arg[0] == "close":
                    co.close()
                else:
                    co = None       # last reference: dropped, collected
                done(t, None)
                r = None
        except core.Violation:
            raise
        except BaseException as e:
            e0 = None if isinstance(e, StopIteration) and \
                not is_injected(e) else e
            done(t, e0)
            r = None
        if r is not None:
            if what != "step":
                # a cancelled task handled it and waits again: any timer it
                # had is superseded
                heap = [h for h in heap if not (h[2] == "step" and h[3] == t)]
                heapq.heapify(heap)
                if t in waiting:
                    waiting.remove(t)
            if r.what == "sleep":
                seq += 1
                heapq.heappush(heap, (sim.now+r.arg, seq, "step", t, None))
            else:
                waiting.append(t)
        if w.holder is None and waiting:
            seq += 1
            heapq.heappush(heap, (sim.now, seq, "step", waiting.pop(0), None))
    sim.check(not tasks, "no-progress", lambda: "tasks %s never finished"
              % sorted(tasks))
    sim.check(not w.stack, "harness", "open override")
    w.compare("not-restored", "at the end")
    for e in initial:
        sim.log("final", e.name, w.model[id(e)])
