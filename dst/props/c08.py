"""Trajectories are timed, private and follow present voltages."""
import copy
import math

import numpy as np

from .. import core, world
from ..core import HarnessError, Interrupter, count_lines, is_injected

ID = "C08"
RUNS = {"quick": 10000, "thorough": 300000}
BATCH = 20
RULE = ("A run is a random schedule over up to four trajectory generators of "
        "one or two systems sharing electrodes and a caller that changes "
        "voltages and the electrode list, overwrites yielded states and "
        "its start arrays, closes or abandons generators, between and also "
        "during integration steps; integrator, electrodes and interrupts "
        "fail at chosen points. Non-trivial: a fault fired, or two "
        "trajectories interleaved.")
REAL = ["System.trajectory, System.time_potential", "electrode potentials"]
STUB = ["integrator (the GNI extension is not available here): several "
        "schemes that call back for the acceleration, check every call "
        "and update position and speed in place",
        "failing electrode wrapper"]
STATE_MEASURE = ("distinct (open trajectories, axes, steps taken, last event, "
                 "fault, outcome)")
TIME_UNIT = "units of inverse rf frequency (integrated by trajectories)"
FAULTS = ["integrator-fails-before", "integrator-fails-mid",
          "integrator-fails-after", "electrode-raises-before",
          "electrode-raises-mid", "electrode-raises-after", "electrode-nan",
          "interrupt", "abandoned", "closed", "thrown-into"]
PROBES = ["interleaved", "voltage-change-between", "voltage-change-during",
          "electrode-added", "electrode-removed", "scribbled-yield",
          "scribbled-start", "named-integrator", "finished", "zero-steps",
          "list-start", "integer-start", "axis-subset", "shared-start",
          "nested-advance"]
ASSUMPTIONS = ["the integrator is modelled by its documented interface: it "
               "updates position and speed in place and calls back for the "
               "acceleration"]
EXC = ["Injected", "ValueError", "MemoryError", "KeyboardInterrupt",
       "InjectedBase", "FloatingPointError", "RuntimeError", "StopIteration",
       "GeneratorExit"]
ASYNC = ["KeyboardInterrupt", "MemoryError", "InjectedBase"]
SCHEMES = ["euler", "verlet", "midpoint", "still"]


def gen_traj(rng, ns):
    n = rng.choice([0, 1, 2, 3, 5, 8])
    dt = rng.choice([.05, .1, .02*math.pi, 1/3., .25])
    t0 = rng.choice([0, 0, 0., .7, -1.3, 100.])
    ints = rng.random() < .15
    return {"sys": rng.randrange(ns),
            "x": [rng.randint(-1, 1) if ints else rnd(rng) for _ in range(2)]
            + [1 if ints else round(rng.uniform(.5, 1.2), 3)],
            "v": [rng.randint(-1, 1) if ints else rnd(rng)
                  for _ in range(3)],
            "axis": rng.choice([[0, 1, 2], [0, 1, 2], None, [1, 2], [0],
                                [2, 0], [2, 1, 0], [2]]),
            "t0": t0, "dt": dt,
            # never a whole number of steps: rounding decides those
            "t1": t0 + dt*(n - .5) if n else t0 - rng.choice([0, .3]),
            "n": n, "nsteps": rng.choice([None, 1, 2, 5]),
            "scheme": rng.choice(SCHEMES),
            "form": rng.choice(["array", "array", "array", "list", "tuple",
                                "shared", "readonly"]),
            "named": rng.choice([None, None, None, "gni_irk2", "gni_lmm2"]),
            "methc": rng.choice([None, 4]),
            "extra": rng.choice([[], [], [1.5]]),
            "kw": rng.choice([{}, {}, {"rpar": 2}])}


def rnd(rng):
    return round(rng.uniform(-.7, .7), 3)


def gen(rng, idx):
    ns = rng.choice([1, 1, 2])
    els = [[world.gen_spec(rng, "HHHPQC", 3), world.rnd(rng, -2, 2),
            rng.choice([0., 0., world.rnd(rng, -2, 2)])]
           for _ in range(rng.randint(1, 4))]
    trajs = [gen_traj(rng, ns) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    ops = []
    m = len(trajs)
    for _ in range(rng.randint(3, 26)):
        r = rng.random()
        if r < .6:
            o = {"op": "next", "k": rng.randrange(m), "fault": None,
                 "during": None}
            q = rng.random()
            if q < .06:
                o["fault"] = ["integ", rng.choice(["before", "mid",
                                                   "after"]),
                              rng.choice(EXC)]
            elif q < .14:
                o["fault"] = ["el", rng.randint(0, 4), rng.randint(0, 6),
                              rng.choice(["before", "mid", "after", "nan"]),
                              rng.choice(EXC)]
            elif q < .2:
                o["fault"] = ["int", round(rng.random(), 4),
                              rng.choice(ASYNC)]
            if rng.random() < .2:
                o["during"] = gen_change(rng)
            elif rng.random() < .05:
                o["during"] = ["advance", rng.randrange(m)]
            ops.append(o)
        elif r < .8:
            ops.append({"op": "change", "c": gen_change(rng)})
        elif r < .88:
            ops.append({"op": "scribble", "k": rng.randrange(m),
                        "what": rng.choice(["x", "v", "both"])})
        elif r < .91:
            ops.append({"op": "scribble-start", "k": rng.randrange(m)})
        elif r < .94:
            ops.append({"op": "close", "k": rng.randrange(m)})
        elif r < .96:
            ops.append({"op": "abandon", "k": rng.randrange(m)})
        elif r < .98:
            ops.append({"op": "throw", "k": rng.randrange(m),
                        "exc": rng.choice(["Injected",
                                           "KeyboardInterrupt"])})
        else:
            ops.append({"op": "restart", "k": rng.randrange(m)})
    return {"els": els, "ns": ns, "trajs": trajs, "ops": ops}


def gen_change(rng):
    r = rng.random()
    if r < .4:
        return ["dc", rng.randint(0, 4), world.gen_volt(rng)]
    if r < .75:
        return ["rf", rng.randint(0, 4), world.gen_volt(rng)]
    if r < .88:
        return ["add", rng.randint(0, 4), rng.randint(0, 1)]
    return ["remove", rng.randint(0, 4), rng.randint(0, 1)]


SHRINK = ("ops", "els")


def shrink(plan):
    for k, o in enumerate(plan["ops"]):
        if o["op"] != "next":
            continue
        for key in ("fault", "during"):
            if o[key] is not None:
                c = copy.deepcopy(plan)
                c["ops"][k][key] = None
                yield c
    for k, t in enumerate(plan["trajs"]):
        for key, v in (("axis", None), ("named", None), ("extra", []),
                       ("kw", {}), ("form", "array"), ("nsteps", None),
                       ("t0", 0.), ("scheme", "euler"), ("v", [0., 0., 0.])):
            if t[key] != v:
                c = copy.deepcopy(plan)
                c["trajs"][k][key] = v
                if key == "t0":
                    c["trajs"][k]["t1"] -= t["t0"]
                yield c


class World(object):
    def __init__(self, plan, sim):
        self.sim = sim
        C = world.classes()
        self.specs = [e[0] for e in plan["els"]]
        self.objs = [C.Faulty(world.make_inner(s, name="e"), name="e%d" % i,
                              dc=dc, rf=rf)
                     for i, (s, dc, rf) in enumerate(plan["els"])]
        self.dc = [e[1] for e in plan["els"]]
        self.rf = [e[2] for e in plan["els"]]
        # which electrodes are in which system
        self.lists = [list(range(len(self.objs)))
                      for _ in range(plan["ns"])]
        self.systems = [C.System([self.objs[i] for i in li])
                        for li in self.lists]

    def change(self, c):
        kind, i = c[0], c[1] % len(self.objs)
        if kind == "dc":
            self.dc[i] = c[2]
            self.objs[i].dc = c[2]
        elif kind == "rf":
            self.rf[i] = c[2]
            self.objs[i].rf = c[2]
        else:
            s = c[2] % len(self.lists)
            li = self.lists[s]
            if kind == "add":
                li.append(i)
                self.systems[s].append(self.objs[i])
                self.sim.probe("electrode-added")
            elif len(li) > 1:
                del li[i % len(li)]
                del self.systems[s][i % (len(li)+1)]
                self.sim.probe("electrode-removed")

    def accel(self, s, x, t):
        """down the gradient of the instantaneous potential, and its scale"""
        g = np.zeros(3)
        sc = 0.
        for i in self.lists[s]:
            u = world.unit(self.specs[i], [x], 1)[0]
            v = self.dc[i] + self.rf[i]*math.cos(t)
            g -= v*u
            sc += (abs(self.dc[i])+abs(self.rf[i]))*np.abs(u).max()
        return g, sc


class Stepper(object):
    """The simulated integrator of one trajectory; knows what it should be
    asked and answers."""

    def __init__(self, w, spec, sim, k):
        self.w, self.spec, self.sim, self.k = w, spec, sim, k
        self.axis = spec["axis"] or [0, 1, 2]
        self.x0 = np.array(spec["x"], float)
        self.q = self.x0[self.axis].copy()
        self.p = np.array(spec["v"], float)[self.axis].copy()
        self.n = 0            # steps completed
        self.asked = 0        # steps asked for
        self.fault = None
        self.during = None
        self.tampered = False
        self.where = "trajectory %d" % k

    def time(self, n):
        return self.spec["t0"] + n*self.spec["dt"]

    def __call__(self, ddx, nsteps, t, p, q, t1, *args, **kwargs):
        sp, sim = self.spec, self.sim
        w = self.where
        self.asked += 1
        sim.log("step", self.k, self.n)
        if sp["named"]:
            sim.check(args[:1] == (sp["methc"] or 2,), "wrong-arguments",
                      lambda: "%s integration method %s" % (w, args[:1]))
            args = args[1:]
        sim.check(list(args) == sp["extra"] and kwargs == sp["kw"],
                  "wrong-arguments", lambda: "%s extra arguments %s %s" % (
                      w, args, kwargs))
        sim.check(nsteps == (sp["nsteps"] or 1), "wrong-arguments",
                  lambda: "%s integration steps %s" % (w, nsteps))
        sim.close(t, self.time(self.n), "wrong-time", w + " step start",
                  rtol=1e-12, atol=1e-11)
        sim.close(t1, self.time(self.n+1), "wrong-time", w + " step end",
                  rtol=1e-12, atol=1e-11)
        for name, a, b in (("position", q, self.q), ("speed", p, self.p)):
            sim.check(isinstance(a, np.ndarray)
                      and a.dtype == np.float64 and a.flags.writeable,
                      "wrong-arguments", lambda: "%s %s is not an array to "
                      "integrate in: %r" % (w, name, a))
            sim.close(a, b, "wrong-state", "%s %s at the start of step %d" % (
                w, name, self.n), rtol=0, atol=0)
        f, self.fault = self.fault, None
        if f and f[0] == "integ" and f[1] == "before":
            self.fail(f)
        h = (t1 - t)/nsteps
        self.during, d = None, self.during
        for i in range(nsteps):
            ti = t + i*h
            if sp["scheme"] == "euler":
                p += h*self.acc(ddx, ti, q)
                q += h*p
            elif sp["scheme"] == "verlet":
                p += .5*h*self.acc(ddx, ti, q)
                q += h*p
                p += .5*h*self.acc(ddx, ti+h, q)
            elif sp["scheme"] == "midpoint":
                a = self.acc(ddx, ti, q)
                b = self.acc(ddx, ti+.5*h, q+.5*h*p)
                q += h*p + .5*h*h*a
                p += h*b
            if d is not None and i == 0:
                if d[0] == "advance":
                    self.nested(d[1])
                else:
                    self.w.change(d)
                    sim.probe("voltage-change-during")
                    self.acc(ddx, ti+.3*h, q)
            if i == 0 and f and f[0] == "integ" and f[1] == "mid":
                self.fail(f)
        if f and f[0] == "integ" and f[1] == "after":
            self.fail(f)
        self.p, self.q = p.copy(), q.copy()
        self.n += 1
        sim.now += sp["dt"]

    def fail(self, f):
        self.sim.fault("integrator-fails-" + f[1])
        raise core.make_exc(f[2], "integrator")

    def acc(self, ddx, t, q):
        f = np.full(q.shape, 13.)
        q0 = q.copy()
        ddx(t, q, f)
        sim = self.sim
        sim.check(bool(np.all(q == q0)), "state-altered",
                  "%s position changed by the acceleration" % self.where)
        if self.tampered:
            # an electrode was told to give nan
            return np.zeros(q.shape)
        x = self.x0.copy()
        x[self.axis] = q
        if not np.all(np.abs(x) < 1e3):
            return np.zeros(q.shape)
        g, sc = self.w.accel(self.spec["sys"], x, t)
        g = g[self.axis]
        if np.all(np.isfinite(g)):
            sim.close(f, g, "wrong-field", "%s field at time %s" % (
                self.where, t), rtol=1e-9, atol=1e-12 + 1e-9*sc)
        # a bounded, exactly repeatable value from here on
        return np.clip(np.nan_to_num(f), -5, 5)


def execute(plan, sim):
    if not plan["els"]:
        return
    w = World(plan, sim)
    import electrode.system as es
    current = [None]

    class Gni(object):
        @staticmethod
        def gni_irk2(*a, **k):
            return run_named("gni_irk2", a, k)

        @staticmethod
        def gni_lmm2(*a, **k):
            return run_named("gni_lmm2", a, k)

    stack = []

    def run_named(name, a, k):
        s = stack[-1]
        sim.check(s.spec["named"] == name, "wrong-integrator",
                  lambda: "%s called %s" % (s.where, name))
        sim.probe("named-integrator")
        return s(*a, **k)

    old = es.gni
    es.gni = Gni
    try:
        run(plan, sim, w, stack)
    finally:
        es.gni = old


class Traj(object):
    pass


def start(plan, sim, w, k, shared):
    sp = plan["trajs"][k]
    T = Traj()
    T.k = k
    T.st = Stepper(w, sp, sim, k)
    x, v = sp["x"], sp["v"]
    if sp["form"] == "shared" and shared[0] is not None and len(
            shared[0]) == 2:
        x, v = shared[0]
        T.st.x0 = np.array(x, float)
        T.st.q = T.st.x0[T.st.axis].copy()
        T.st.p = np.array(v, float)[T.st.axis].copy()
        sim.probe("shared-start")
    elif sp["form"] == "list":
        x, v = list(x), list(v)
        sim.probe("list-start")
    elif sp["form"] == "tuple":
        x, v = tuple(x), tuple(v)
    else:
        x, v = np.array(x), np.array(v)
        if sp["form"] == "readonly":
            x.flags.writeable = v.flags.writeable = False
        shared[0] = (x, v)
    if all(isinstance(i, int) for i in list(sp["x"]) + list(sp["v"])):
        sim.probe("integer-start")
    if len(T.st.axis) < 3:
        sim.probe("axis-subset")
    T.x, T.v = x, v
    T.x_ref, T.v_ref = np.array(x).copy(), np.array(v).copy()
    kw = dict(t0=sp["t0"], dt=sp["dt"], t1=sp["t1"])
    if sp["axis"] is not None:
        kw["axis"] = tuple(sp["axis"])
    if sp["nsteps"]:
        kw["nsteps"] = sp["nsteps"]
    kw["integ"] = sp["named"] or T.st
    if sp["named"] and sp["methc"]:
        kw["methc"] = sp["methc"]
    kw.update(sp["kw"])
    if sp["extra"]:
        pos = [kw.pop("axis", (0, 1, 2)), kw.pop("t0"), kw.pop("dt"),
               kw.pop("t1"), kw.pop("nsteps", 1), kw.pop("integ")]
        T.gen = w.systems[sp["sys"]].trajectory(x, v, *(pos + sp["extra"]),
                                                **kw)
    else:
        T.gen = w.systems[sp["sys"]].trajectory(x, v, **kw)
    T.dead = False
    T.running = False
    T.yields = []        # (objects, copies)
    return T


def run(plan, sim, w, stack):
    shared = [None]
    trajs = [start(plan, sim, w, k, shared)
             for k in range(len(plan["trajs"]))]
    advanced = []

    def advance(T, fault=None, during=None):
        st, sp = T.st, T.st.spec
        n0, asked0 = st.n, st.asked
        dead0 = T.dead
        left = n0 < sp["n"]
        if fault and during and during[0] == "advance":
            during = None
        st.fault, st.during = fault, during
        st.tampered = False
        if fault and fault[0] == "el":
            e = w.objs[fault[1] % len(w.objs)]
            e.arm({fault[2]: (fault[3], fault[4])}, sim)
            st.tampered = fault[3] == "nan"
        before = sum(sim.faults.values())
        it = None
        if fault and fault[0] == "int":
            it = Interrupter(1 + int(fault[1]*14*3*(sp["nsteps"] or 1)),
                             fault[2])
        res = err = None
        stack.append(st)
        T.running = True
        try:
            with np.errstate(all="ignore"):
                res = it.run(lambda: next(T.gen)) if it else next(T.gen)
        except core.Violation:
            raise
        except HarnessError:
            raise
        except BaseException as e:
            err = e
        finally:
            T.running = False
            stack.pop()
            for e in w.objs:
                e.disarm()
        if it and it.fired:
            sim.fault("interrupt")
        st.fault = st.during = None
        fired = sum(sim.faults.values()) - before
        out = type(err).__name__ if err else "yield"
        sim.log("next", T.k, out)
        sim.state(sum(not t.dead for t in trajs), st.axis, st.n,
                  fault[0] if fault else None, bool(during), out)
        if dead0:
            sim.check(isinstance(err, StopIteration), "undead",
                      lambda: "%s went on after its end: %s" % (st.where,
                                                                err or res))
            sim.check(st.asked == asked0, "undead", lambda: "%s integrates "
                      "after its end" % st.where)
            return
        raising = fired and not (fault and fault[0] == "el"
                                 and fault[3] == "nan")
        if raising:
            T.dead = True
            sim.check(err is not None and not isinstance(err, StopIteration),
                      "failure-swallowed", lambda: "%s gave %s after %s" % (
                          st.where, err or res, fault))
            sim.check(is_injected(err), "failure-replaced", lambda: "%s "
                      "raised %s after %s" % (st.where, core.short_tb(err),
                                              fault))
            return
        if not left:
            T.dead = True
            sim.check(isinstance(err, StopIteration), "wrong-end", lambda:
                      "%s should end after %d steps, gave %s" % (
                          st.where, n0, err or res))
            sim.check(st.asked == asked0, "wrong-end", lambda: "%s "
                      "integrates beyond the final time" % st.where)
            sim.probe("finished" if n0 else "zero-steps")
            return
        if err is not None:
            sim.check(not isinstance(err, StopIteration), "wrong-end",
                      lambda: "%s ended after %d of %d steps" % (
                          st.where, n0, sp["n"]))
            raise core.Violation("unexpected-failure", "%s raised %s" % (
                st.where, core.short_tb(err)))
        sim.check(st.n == n0+1 and st.asked == asked0+1, "wrong-steps",
                  lambda: "%s took %d steps for one yield" % (
                      st.where, st.asked-asked0))
        sim.check(isinstance(res, tuple) and len(res) == 3, "wrong-yield",
                  lambda: "%s yields %r" % (st.where, res))
        t, q, p = res
        sim.close(t, st.time(st.n), "wrong-time", st.where + " yielded time",
                  rtol=1e-12, atol=1e-11)
        sim.close(q, st.q, "wrong-yield", st.where + " yielded position",
                  rtol=0, atol=0)
        sim.close(p, st.p, "wrong-yield", st.where + " yielded speed",
                  rtol=0, atol=0)
        T.yields.append(([q, p], [np.array(q), np.array(p)]))
        if T.k not in advanced[-1:]:
            advanced.append(T.k)

    def settle():
        """snapshots and start arrays are as they were"""
        for T in trajs:
            for n, (objs, copies) in enumerate(T.yields):
                for a, b in zip(objs, copies):
                    sim.close(a, b, "snapshot-altered", "%s state %d" % (
                        T.st.where, n+1), rtol=0, atol=0)
            for a, b in ((T.x, T.x_ref), (T.v, T.v_ref)):
                sim.close(a, b, "start-altered", T.st.where + " start array",
                          rtol=0, atol=0)
        for i, e in enumerate(w.objs):
            sim.check(e.dc == w.dc[i] and e.rf == w.rf[i],
                      "voltage-altered", lambda: "electrode %d has %s %s" % (
                          i, e.dc, e.rf))
        for s, li in zip(w.systems, w.lists):
            sim.check([id(e) for e in s] == [id(w.objs[i]) for i in li],
                      "system-altered", "electrode list")

    for st in [T.st for T in trajs]:
        def nested(k, st=st):
            T = trajs[k % len(trajs)]
            if not T.running:
                sim.probe("nested-advance")
                advance(T)
        st.nested = nested

    for o in plan["ops"]:
        k = o.get("k", 0) % len(trajs)
        T = trajs[k]
        if o["op"] == "next":
            advance(T, o["fault"], o["during"])
        elif o["op"] == "change":
            w.change(o["c"])
            sim.probe("voltage-change-between")
            sim.log("change", o["c"])
        elif o["op"] == "scribble":
            if T.yields:
                objs, copies = T.yields[-1]
                for i in ((0,) if o["what"] == "x" else (1,) if o["what"]
                          == "v" else (0, 1)):
                    if objs[i].flags.writeable:
                        objs[i][...] = 77.
                        copies[i][...] = 77.
                        sim.probe("scribbled-yield")
        elif o["op"] == "scribble-start":
            # only once it is under way
            if T.yields and isinstance(T.x, np.ndarray) \
                    and T.x.flags.writeable and all(
                        U.yields for U in trajs if U.x is T.x):
                T.x[...] = 5
                T.v[...] = 5
                for U in trajs:
                    if U.x is T.x:
                        U.x_ref, U.v_ref = T.x.copy(), T.v.copy()
                sim.probe("scribbled-start")
        elif o["op"] == "close":
            if hasattr(T.gen, "close"):
                T.gen.close()
            T.dead = True
            sim.fault("closed")
        elif o["op"] == "abandon":
            T.gen = iter(())
            T.dead = True
            sim.fault("abandoned")
        elif o["op"] == "throw":
            was, T.dead = T.dead, True
            asked = T.st.asked
            exc = core.make_exc(o["exc"], "thrown")
            sim.fault("thrown-into")
            err = None
            try:
                if hasattr(T.gen, "throw"):
                    T.gen.throw(exc)
                else:
                    raise exc
            except BaseException as e:
                err = e
            sim.check(err is exc and T.st.asked == asked,
                      "failure-swallowed", lambda: "%s gave %s when %r was "
                      "thrown into it" % (T.st.where, err, exc))
            sim.log("throw", was)
        elif o["op"] == "restart":
            if not T.running:
                trajs[k] = start(plan, sim, w, k, [None])
                trajs[k].st.nested = T.st.nested
        settle()
    if len(advanced) > 2:
        sim.probe("interleaved")
        sim.nontrivial = True
    # whatever is left of the others goes on to its end
    for T in list(trajs):
        for _ in range(12):
            if T.dead:
                break
            advance(T)
    settle()
