"""Threads reading one system at the same time, under every interleaving."""
import contextlib
import copy
import io
import threading
import warnings

import numpy as np

from .. import core, points, world
from ..core import HarnessError
from ..sched import Scheduler
from ..solver import SimSolver
from ..world import rnd
from . import c03, c16

ID = "C04"
RUNS = {"quick": 2500, "thorough": 60000}
BATCH = 10
RULE = ("A run starts two to four threads, each making one to three calls "
        "that only read a shared system, shared constraints, shared "
        "arguments, a shared Mathieu solution, polygons or spherical grid. "
        "The scheduler lets one thread run at a time and hands over at the "
        "executed lines or parts of expressions of the package that the "
        "schedule names; it injects an interrupt, a failing electrode or a "
        "failing solver into some of the threads. Every undisturbed call "
        "must return, or fail, as in the same calls made alone on a fresh "
        "equal system. Non-trivial: a hand-over happened inside a call.")
REAL = ["electrode (all modules)", "Python threads", "cvxopt", "scipy"]
STUB = ["thread scheduler", "failing electrode and solver wrappers",
        "integrator of trajectories"]
STATE_MEASURE = ("distinct (line left, line entered, calls of both threads) "
                 "of a hand-over")
FAULTS = ["hand-over", "interrupt", "electrode-raises", "solver-raise",
          "solver-status", "bad-argument"]
PROBES = ["same-arguments", "inside-statements", "after-stores", "dense-schedule", "three-threads",
          "optimized-together", "searched-together", "mathieu-together",
          "transformed-together", "polygons-together", "fault-and-others"]
ASSUMPTIONS = [
    "compiled functions are not interrupted by other threads (one call of "
    "the native potentials is one step)",
    "threads do not switch inside numpy, scipy, cvxopt, shapely"]
points.install()
SHRINK = ("sched", "threads")
EXTRA = ["msol", "msol", "sph", "trans", "trans", "polyg", "opt", "opt",
         "shim", "solv", "grid"]
ALL = {"mix": set(c03.MIX) - {"ions"} | {"msol", "sph", "trans", "grid"},
       "pix": set(c03.PIX) | set(EXTRA)}
LONG = {"analyze", "minimum", "saddle", "traj", "contour"}
OWN = {"plot", "plotv", "contour"}   # draw on axes of their own
EXC = ["KeyboardInterrupt", "MemoryError", "InjectedBase", "Injected",
       "ValueError"]


# ------------------------------------------------------------- generators

def gen_op(rng, mode, small):
    while True:
        if rng.random() < .35:
            op = rng.choice(EXTRA)
            if op in ("opt", "shim", "solv", "polyg") and mode != "pix":
                continue
            return {"op": op, "kind": rng.randint(0, 9),
                    "seed": rng.randrange(1 << 20),
                    "x": world.gen_points(rng, 1), "fault": None}
        o = c03.gen_op(rng, mode)
        o["fault"] = ["bad", rng.randint(0, 5)] if (
            rng.random() < .06 and o["op"] not in OWN) else None
        o["kind"] |= 1 if o["op"] == "ions" else 0
        if o["op"] == "ions" or (small and o["op"] in LONG):
            continue
        return o


def gen(rng, idx):
    mode = rng.choice(["mix", "mix", "pix"])
    while True:
        p = c03.gen(rng, 0)
        if p["mode"] == mode:
            break
    small = rng.random() < .7
    n = rng.choice([2, 2, 2, 3, 3, 4])
    same = rng.random() < .5
    threads = []
    for i in range(n):
        ops = [gen_op(rng, mode, small) for _ in range(rng.choice([1, 1, 2,
                                                                    3]))]
        if same and not i:
            want = rng.choice(sorted(ALL[mode]) + 2*(
                ["opt", "opt", "shim", "solv", "optimize", "polyg"]
                if mode == "pix" else ["minimum", "saddle", "msol", "pot"]))
            for _ in range(300):
                if ops[0]["op"] == want:
                    break
                ops[0] = gen_op(rng, mode, False)
        elif same:
            ops[0] = copy.deepcopy(threads[0]["ops"][0])
            r = rng.random()
            if r < .5:
                ops[0]["x"] = world.gen_points(rng, len(ops[0]["x"]))
                ops[0]["seed"] = rng.randrange(1 << 20)
            if r < .25:
                ops[0]["kind"] = rng.randint(0, 9)
        fault = None
        r = rng.random()
        if r < .1:
            fault = ["int", round(rng.random(), 4), rng.choice(EXC)]
        elif r < .18:
            fault = ["el", rng.randint(0, 5), rng.choice([0, 1, 3, 12]),
                     rng.choice(["before", "mid", "after"]), rng.choice(EXC)]
        elif r < .26 and any(o["op"] in ("opt", "shim", "solv", "optimize",
                                         "shims", "solve") for o in ops):
            fault = ["solver", rng.choice([["raise", "Injected"], [
                "status", "primal infeasible"], ["maxiters", 2]])]
        threads.append({"ops": ops, "fault": fault})
    if not any(t["fault"] is None for t in threads):
        threads[0]["fault"] = None
    grain = rng.choice(["line", "part", "store"])
    top = rng.choice([4, 12, 40, 150, 600, 2500])
    if grain == "store":
        top = rng.choice([1, 2, 3, 6, 20])
    k = rng.choice([1, 2, 4, 10, 30, 60])
    sched = [[1 + int(top**rng.random()), rng.randrange(6)]
             for _ in range(k)]
    r = rng.random()
    if r < .15:
        sched = [[1, 0] for _ in range(200)]
    return {"mode": mode, "els": p["els"], "scale": p["scale"],
            "share": rng.random() < .6, "threads": threads, "sched": sched,
            "grain": grain,
            "pool": [c03.gen_constraint(rng) for _ in range(4)]}


def shrink(plan):
    for k, t in enumerate(plan["threads"]):
        if t["fault"]:
            c = copy.deepcopy(plan)
            c["threads"][k]["fault"] = None
            yield c
        for i in range(len(t["ops"])):
            if len(t["ops"]) > 1:
                c = copy.deepcopy(plan)
                del c["threads"][k]["ops"][i]
                yield c
    n = len(plan["sched"])
    if n > 1:
        yield dict(plan, sched=plan["sched"][:n//2])
    for k in range(n-1):
        if n < 12:      # merge two stretches
            s = copy.deepcopy(plan["sched"])
            s[k][0] += s[k+1][0]
            del s[k+1]
            yield dict(plan, sched=s)
    if plan["grain"] != "line":
        yield dict(plan, grain="line")
    if plan["share"]:
        yield dict(plan, share=False)


# ------------------------------------------------------------- world

class Who(object):
    """which simulated thread is running (None: not in one)"""
    sched = None

    def __call__(self):
        s = self.sched
        return None if s is None else s.ident.get(threading.get_ident())


class World(object):
    def __init__(self, plan, sim, who):
        import electrode
        C = world.classes()
        self.plan, self.sim, self.who = plan, sim, who
        self.script = {}        # thread -> [element, call, mode, exc]
        self.count = {}
        self.els = []
        for i, (spec, dc, rf) in enumerate(plan["els"]):
            e = C.Faulty(world.make_inner(spec, name="e%d" % i, dc=dc, rf=rf),
                         name="e%d" % i, dc=dc, rf=rf)
            if plan["mode"] == "mix":
                e.on_call = self.hook(i)
                self.els.append(e)
            else:
                self.els.append(e.inner)
        self.S = C.System(self.els)
        self.S.rf_coeff = plan["scale"]
        self.pool = [c03.constraint(c) for c in plan["pool"]]
        self.values = [c for c in self.pool if getattr(c, "value", None)
                       is not None]
        self.rg = electrode.PatternRangeConstraint(min=-1, max=1)
        from electrode.mathieu import Mathieu
        self.M = Mathieu()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.M.init_sol(.2, .1)
        self.sph = electrode.SphericalGrid([0, 0, 1.], .1, 3)
        self.P = None
        if plan["mode"] == "pix":
            from electrode.polygons import Polygons
            self.P = Polygons.from_system(self.S)
        self.vec = np.linspace(.1, .9, 12)

    def hook(self, i):
        def on_call(n):
            me = self.who()
            s = self.script.get(me)
            if s is None or s[1] % max(len(self.els), 1) != i:
                return
            k = self.count[me] = self.count.get(me, 0) + 1
            if k == s[2] + 1:
                self.sim.fault("electrode-raises")
                raise core.make_exc(s[4])
        return on_call

    def prepare(self, o):
        op, S = o["op"], self.S
        r = np.random.RandomState(o.get("seed", 0))
        k = o["kind"]
        if op == "msol":
            t = r.uniform(0, 9, 5)
            fs = [lambda: self.M.sol_y1(t), lambda: self.M.sol_y2(t),
                  lambda: self.M.sol_y1(t, 1), lambda: self.M.sol_y2(t, 1),
                  lambda: self.M.init_value((.3, .1), .2)]
            return fs[k % 5]
        if op == "sph":
            h = self.sph.spherical_harmonics
            f = r.randn(3, 6)
            if k % 3 == 0:
                return lambda: h.synthesis(h.analysis(f))
            return [lambda: h.analysis(f), self.sph.to_points][k % 3 - 1]
        if op == "trans":
            import electrode.transformations as T
            v, q = self.vec[:3], self.vec[:4]
            m = T.random_rotation_matrix(self.vec[:3])
            fs = [lambda: T.quaternion_matrix(q),
                  lambda: T.rotation_matrix(v[0], v),
                  lambda: T.euler_from_quaternion(q),
                  lambda: T.euler_from_matrix(m, "rzyz"),
                  lambda: T.decompose_matrix(m),
                  lambda: T.concatenate_matrices(m, m),
                  lambda: T.compose_matrix(angles=v, translate=v),
                  lambda: T.unit_vector(q),
                  lambda: T.quaternion_slerp(q, self.vec[4:8], .3),
                  lambda: T.quaternion_multiply(q, q)]
            return fs[k % 10]
        if op == "grid":
            import electrode
            g = electrode.Grid(center=self.vec[:3], step=self.vec[3:6],
                               shape=(2, 2, 3))
            return lambda: (g.to_points(), g.to_xyz(), g.get_origin(),
                            S.potential(g.to_points(), 0))
        if op == "polyg":
            P = self.P
            fs = [lambda: P.to_system(), lambda: P.remove_overlaps(),
                  lambda: P.add_gaps(.1), lambda: P.unify(),
                  lambda: P.within(2.), lambda: P.gaps_union(),
                  lambda: P.simplify(), lambda: P.check()]
            return fs[k % 8]
        x = np.array(o["x"], float)[0] if "x" in o else None
        cs = [c for i, c in enumerate(self.pool) if k >> i & 1] or self.pool
        if op == "opt":
            kw = [{}, {"maxiters": 3}, {"abstol": 1e-3}][o["seed"] % 3]
            return lambda: S.optimize(cs + [self.rg], verbose=False, **kw)
        if op == "solv":
            return lambda: S.solve([[self.rg] + [c for c in cs if getattr(
                c, "value", None) is None]]*2, [], verbose=False)
        if op == "shim":
            xcd = [(x, None, "x"), (x, None, "yy")][:1 + k % 2]
            return lambda: S.shims(xcd, self.values[:2], [self.rg])
        # errors of the arguments are counted once, by the shared run
        return c03.prepare_op(o, S, _Mute())[1]


class _Mute(object):
    def fault(self, *a):
        pass
    probe = log = fault


class ThreadSolver(SimSolver):
    """what a solver call does depends on the thread that makes it"""

    def __init__(self, sim, who, scripts):
        super(ThreadSolver, self).__init__(sim)
        self.who, self.scripts = who, scripts

    def conelp(self, *a, **k):
        act = self.scripts.get(self.who())
        self.script = {self.calls: act} if act else {}
        return super(ThreadSolver, self).conelp(*a, **k)


# ------------------------------------------------------------- results

def picture(x, depth=0):
    if isinstance(x, str):
        return ("s", x)
    if isinstance(x, (bool, type(None), bytes, np.bool_)):
        return ("v", repr(x))
    if isinstance(x, (int, float, complex, np.ndarray, np.number)):
        a = np.array(x)
        return ("v", a.tolist()) if a.dtype == object else ("n", a)
    if isinstance(x, dict):
        return ("l", [picture([k, v], depth+1) for k, v in sorted(
            x.items(), key=lambda i: repr(i[0]))])
    from electrode.electrode import Electrode
    if isinstance(x, Electrode):
        return (type(x).__name__, [picture(list(map(str, [
            x.name, x.dc, x.rf])))])
    if hasattr(x, "wkb_hex") or hasattr(x, "geom_type"):
        return (x.geom_type, [picture([x.area, x.length])])
    if isinstance(x, (list, tuple)) or hasattr(x, "__next__"):
        if depth > 8:
            return ("deep", [])
        return ("l", [picture(i, depth+1) for i in x])
    return ("o", type(x).__name__)


def text(x):
    """text without its numbers, and the numbers"""
    return (c16.skeleton(x),
            np.array(c16.numbers(x)))


def compare(sim, got, want, where, tol):
    sim.check(got[0] == want[0], "result-differs", lambda: "%s: %.200r "
              "instead of %.200r" % (where, got, want))
    if got[0] == "n":
        g, w = got[1], want[1]
        if g.dtype.kind in "iub" or w.dtype.kind in "iub":
            sim.check(g.dtype.kind == w.dtype.kind, "result-differs", where)
        sim.close(g, w, "result-differs", where, rtol=tol, atol=tol*1e-3)
    elif got[0] == "s":
        # memory alignment may move the last digits
        (a, g), (b, w) = text(got[1]), text(want[1])
        ok = a == b and g.shape == w.shape
        if ok and g.size:
            s = np.abs(np.concatenate([g, w]))
            s = 1e-3*s[np.isfinite(s)].max(initial=0.) + 1e-6
            ok = np.all((np.abs(np.abs(g)-np.abs(w)) <= s) | (g == w)
                        | (np.isnan(g) & np.isnan(w)))
        sim.check(ok, "result-differs", lambda: "%s: %r instead of %r" % (
            where, got[1], want[1]))
    elif isinstance(got[1], list) and got[0] != "v":
        sim.check(len(got[1]) == len(want[1]), "result-differs", where)
        for a, b in zip(got[1], want[1]):
            compare(sim, a, b, where, tol)
    else:
        sim.check(got[1] == want[1], "result-differs", lambda: "%s: %.200r "
                  "instead of %.200r" % (where, got, want))


TOL = {"minimum": 1e-5, "saddle": 1e-5, "optimize": 1e-5, "opt": 1e-5,
       "shims": 1e-5, "shim": 1e-5, "solve": 1e-5, "solv": 1e-5,
       "analyze": 1e-5, "traj": 1e-6, "mathieu": 1e-6, "modes": 1e-6}


def failure(e):
    s = str(e)
    return (type(e).__name__, "".join(c for c in s if not c.isdigit() and
                                      c not in ".+-e ")[:60])


def certain(op, r):
    """the part of a result that rounding does not decide"""
    if op == "mathieu":
        return np.sort(np.abs(np.asarray(r[0])))
    if op == "modes":
        v, m = np.asarray(r[0]), np.asarray(r[1])
        i = np.argsort(v)
        if np.diff(v[i]).min() > 1e-3*np.abs(v).max():
            return v[i], np.abs(m[:, i])
        return v[i]
    return r


def calls(fns, out, after=lambda: None):
    """make the calls of one thread; `out` keeps their outcomes"""
    def go():
        for op, f in fns:
            try:
                r = certain(op, f())
                if hasattr(r, "__next__"):
                    r = list(r)
                out.append(("ok", picture(r)))
            except BaseException as e:
                out.append(("raise", (failure(e), core.is_injected(e),
                                      core.short_tb(e))))
            r = None    # geometries are freed where they were made
            after()
    return go


def execute(plan, sim):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(io.StringIO()):
            run(plan, sim)


def run(plan, sim):
    if not plan["els"] or not plan["threads"]:
        return
    who = Who()
    n = len(plan["threads"])
    # what each call gives alone
    alone, total = [], []
    for t in plan["threads"]:
        w = World(plan, core.Sim(), who)
        fns = [(o["op"], w.prepare(o)) for o in t["ops"]]
        out = []
        with SimSolver(core.Sim()):
            if t["fault"] and t["fault"][0] == "int":
                total.append(core.count_lines(calls(fns, out)))
            else:
                calls(fns, out)()
                total.append(0)
        alone.append(out)
    # together
    w = World(plan, sim, who)
    shared = {}
    fns = []
    for t in plan["threads"]:
        f = []
        for o in t["ops"]:
            key = repr(sorted(o.items()))
            if not plan["share"] or o["op"] in OWN:
                f.append((o["op"], w.prepare(o)))
                continue
            if key in shared:
                sim.probe("same-arguments")
            else:
                shared[key] = w.prepare(o)
            f.append((o["op"], shared[key]))
            if o["fault"]:
                sim.fault("bad-argument")
        fns.append(f)
    inject, scripts = {}, {}
    for i, t in enumerate(plan["threads"]):
        f = t["fault"]
        if f and f[0] == "int" and total[i]:
            inject[i] = (1 + int(f[1]*total[i]), f[2])
        elif f and f[0] == "el":
            w.script[i] = f
        elif f and f[0] == "solver":
            scripts[i] = f[1]
    shot = c03.Snapshot(w.S, [("pool", w.pool), ("vec", w.vec)])
    s = Scheduler(plan["sched"], plan["grain"], inject)
    outs = [[] for _ in range(n)]
    who.sched = s
    try:
        with ThreadSolver(sim, who, scripts):
            res = s.run([calls(f, o, s.retrace) for f, o in zip(fns, outs)])
    finally:
        who.sched = None
    if s.stalls:
        sim.probe("stalled")
    for r in res:
        if r[0] != "ok":
            # an interrupt between two calls
            if not core.is_injected(r[1]):
                raise HarnessError(core.short_tb(r[1]))
    ops = [[o["op"] for o in t["ops"]] for t in plan["threads"]]
    for a, where, b in s.switches:
        sim.fault("hand-over")
        sim.log("switch", a, where, b)
    for (a, where, b), nxt in zip(s.switches, s.switches[1:] + [None]):
        sim.state(where, nxt and nxt[1], ops[a][0], ops[b][0])
    for i in sorted(s.fired):
        sim.fault("interrupt")
    reach(plan, sim, s, ops)
    for i, t in enumerate(plan["threads"]):
        sim.log(i, [a for a, _ in outs[i]])
        disturbed = t["fault"] is not None
        if not disturbed:
            sim.check(len(outs[i]) == len(alone[i]), "lost-call", "")
        for k, ((a, r), (b, p)) in enumerate(zip(outs[i], alone[i])):
            o = t["ops"][k]
            where = "thread %d call %d (%s) of %s" % (i, k, o["op"], ops)
            if disturbed:
                if a == "raise" and (r[1] or t["fault"][0]
                                     == "solver" or i in s.fired):
                    continue
                if t["fault"][0] != "el" or i in s.fired:
                    continue
                if w.count.get(i, 0) > t["fault"][2]:
                    continue    # it fired and was dealt with
            if a != b:
                sim.check(False, "outcome-differs", lambda: "%s: %s, alone "
                          "%.200r" % (where, r[2] if a == "raise" else "a result", (b, p)))
            if a == "raise":
                sim.check(r[0] == p[0], "failure-differs", lambda: "%s: %s "
                          "instead of %s" % (where, r, p))
            else:
                compare(sim, r, p, where, TOL.get(o["op"], 1e-8))
    d = shot.diff(w.S, ("system", "args"))
    sim.check(d is None, "side-effect", lambda: "after %s: %s" % (ops, d))


def reach(plan, sim, s, ops):
    if not s.switches:
        return
    if plan["grain"] == "part":
        sim.probe("inside-statements")
    if plan["grain"] == "store":
        sim.probe("after-stores")
    if len(s.switches) > 60:
        sim.probe("dense-schedule")
    if len({a for a, _, _ in s.switches}) > 2:
        sim.probe("three-threads")
    for name, group in (("optimized", {"opt", "shim", "solv", "optimize",
                                       "shims", "solve"}),
                        ("searched", {"minimum", "saddle", "analyze"}),
                        ("mathieu", {"msol", "mathieu"}),
                        ("transformed", {"trans"}),
                        ("polygons", {"polyg", "polygons"})):
        if sum(bool(group & set(o)) for o in ops) > 1:
            sim.probe(name + "-together")
    if sim.faults.get("interrupt") or sim.faults.get(
            "electrode-raises") or sim.faults.get("solver-raise"):
        sim.probe("fault-and-others")


def prepare(d):
    c03.prepare(d)
    import random
    rng = random.Random(4)
    for mode in ("mix", "pix"):
        for op in sorted(set(EXTRA)):
            for kind in range(10):
                p = gen(rng, 0)
                while p["mode"] != mode:
                    p = gen(rng, 0)
                p["threads"] = [{"ops": [{
                    "op": op, "kind": kind, "seed": 1, "fault": None,
                    "x": [[.1, .2, 1.]]}], "fault": None}]
                if mode == "mix" and op in ("opt", "shim", "solv", "polyg"):
                    continue
                try:
                    execute(p, core.Sim())
                except Exception:
                    pass
