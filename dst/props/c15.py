"""A Mathieu solver object never mixes two solutions."""
import copy
import pickle
import warnings

import numpy as np

from .. import core
from ..core import Interrupter, count_lines, is_injected, make_exc

ID = "C15"
RUNS = {"quick": 3000, "thorough": 60000}
BATCH = 6
APART = True
RULE = ("A run is a random sequence of initialisations, solution queries and "
        "copies of one to three solver objects. Initialisations fail by bad "
        "arguments, by failing linear algebra or integrator calls, by "
        "floating point errors or warnings raised as exceptions, and by an "
        "interrupt at any executed line. After every step every object is "
        "compared with a fresh solver, and well-posed solutions with an "
        "independent integration of the equation. Non-trivial: a fault "
        "fired or an initialisation failed.")
REAL = ["electrode.mathieu.Mathieu", "numpy, scipy.integrate"]
STUB = ["failing wrappers of numpy.linalg.det and solve_ivp",
        "independent DOP853 integration as reference"]
STATE_MEASURE = ("distinct (mode, fault, outcome, object initialised before, "
                 "objects alive)")
FAULTS = ["interrupt", "det-raises", "det-nan", "ivp-raises", "ivp-raises-after",
          "fp-raise", "warnings-raise"]
PROBES = ["bad-mode", "nc-missing", "bad-type", "unbounded", "judged-by-ode",
          "failed-after-success", "failed-before-success", "no-solution",
          "copied", "pickled", "array-time", "initial-value",
          "reinitialised", "mode-det", "mode-d0ap", "mode-ivp",
          "judged-failure", "exponent-alone", "sums"]
ASSUMPTIONS = ["the equation itself is judged only in the first stability "
               "region"]
SHRINK = ("ops",)
EXC = ["Injected", "ValueError", "MemoryError", "KeyboardInterrupt",
       "InjectedBase", "ArithmeticError", "AttributeError"]
TOL = 100.
ASYNC = ["KeyboardInterrupt", "MemoryError", "InjectedBase"]


def gen(rng, idx):
    ops = []
    for _ in range(rng.randint(2, 8)):
        r = rng.random()
        i = rng.randint(0, 2)
        if r < .55:
            mode = rng.choice(["det"]*5 + ["d0ap", "ivp"])
            o = {"op": "init", "i": i, "a": rng.choice(
                    [.1, .01, 1e-3, .25, 0., round(rng.uniform(-.1, .8), 4)]),
                 "q": rng.choice([.1, .3, -.2, round(
                     rng.uniform(.01, .6), 4)]), "kw": {}, "fault": None}
            prev = [p for p in ops if p["op"] == "init"]
            if prev and rng.random() < .3:
                # the same equation again, with other options
                o["a"], o["q"] = (rng.choice(prev)[k] for k in "aq")
            if mode != "det" or rng.random() < .2:
                o["kw"]["mode"] = mode
            if mode != "det" or rng.random() < .4:
                o["kw"]["nc"] = rng.randint(1, 12)
            if rng.random() < .3:
                o["kw"]["ng"] = rng.randint(1, 9)
            if rng.random() < .3:
                o["kw"]["tol_nu"] = rng.choice([1e-3, 1e-7, 1e-6])
            bad = rng.random()
            if bad < .08:
                o["kw"]["mode"] = rng.choice(["foo", "", "DET"])
            elif bad < .14:
                o["kw"]["mode"] = rng.choice(["ivp", "d0ap"])
                o["kw"].pop("nc", None)
            elif bad < .18:
                o["a"] = rng.choice(["x", "x", []])
            elif bad < .24:
                o["q"] = rng.choice([.95, 1.2, 2.])
            elif bad < .27:
                o["kw"]["nc"] = rng.choice([2.5, "3"])
            elif bad < .3:
                o["kw"]["ng"] = rng.choice([-3, "2", 0])
            elif bad < .33:
                o["q"] = 0.
            f = rng.random()
            if f < .25:
                o["fault"] = ["int", round(rng.random(), 4),
                              rng.choice(ASYNC)]
            elif f < .33:
                o["fault"] = ["det", rng.randint(0, 2),
                              rng.choice(EXC + ["nan"])]
            elif f < .38:
                o["fault"] = ["ivp", rng.choice(["before", "after"]),
                              rng.choice(EXC)]
            elif f < .45:
                o["fault"] = [rng.choice(["fp", "warn"])]
        elif r < .75:
            o = {"op": "sol", "i": i, "y": rng.randint(1, 2),
                 "d": rng.randint(0, 4),
                 "t": rng.choice([0, 0., 1, 2.5, -3., [0., .5, 4.],
                                  round(rng.uniform(-20, 20), 3)])}
        elif r < .9:
            o = {"op": "iv", "i": i, "y0": [round(rng.uniform(-2, 2), 3)
                                           for _ in range(2)],
                 "t0": rng.choice([0., 0, 1., round(rng.uniform(-9, 9), 3),
                                   rng.choice([-1, 1])*float("%.3g" % 10**(
                                       rng.uniform(-5, -.5)))])}
            if rng.random() < .3:
                o["fault"] = ["int", round(rng.random(), 4),
                              rng.choice(ASYNC)]
            if rng.random() < .2:       # left to the defaults
                o["args"] = rng.choice([0, 1])
                o["t0"] = 0.
                if not o["args"]:
                    o["y0"] = [0., 1.]
        elif r < .96:
            o = {"op": "aux", "i": i, "a": round(rng.uniform(-.19, .8), 3),
                 "q": round(rng.choice([-1, 1])*rng.uniform(.01, .69), 4),
                 "n": rng.randint(5, 20), "how": rng.choice(
                     ["det", "d0ap", "RK45", "Radau", "tolerance", "sums"])}
            if o["how"] == "RK45" and rng.random() < .5:
                o["n"] = None
            if rng.random() < .25:
                o["fault"] = ["int", round(rng.random(), 4),
                              rng.choice(ASYNC)]
        else:
            o = {"op": "copy", "i": i, "j": rng.randint(0, 2),
                 "how": rng.choice(["copy", "deepcopy", "pickle", "new"])}
        ops.append(o)
    return {"ops": ops}


def shrink(plan):
    for k, o in enumerate(plan["ops"]):
        if o.get("fault"):
            c = copy.deepcopy(plan)
            c["ops"][k]["fault"] = None
            yield c
        for key in list(o.get("kw", ())):
            c = copy.deepcopy(plan)
            del c["ops"][k]["kw"][key]
            yield c


TT = [0., .7, -2., 11.3]


class Conditions(object):
    """What the world does to an initialisation"""

    def __init__(self, fault, sim=None):
        self.f, self.sim = fault or ["none"], sim
        self.fired = 0
        self.stack = []

    def note(self, kind):
        self.fired += 1
        if self.sim is not None:
            self.sim.fault(kind)

    def __enter__(self):
        import electrode.mathieu as m
        f = self.f
        self.warn = warnings.catch_warnings()
        self.warn.__enter__()
        warnings.simplefilter("error" if f[0] == "warn" else "ignore")
        self.err = np.errstate(all="raise" if f[0] == "fp" else "ignore")
        self.err.__enter__()
        if f[0] == "det" and f[2] == "nan":
            # never converges
            def det(*a, **k):
                if not self.fired:
                    self.note("det-nan")
                return np.nan
            self.stack.append((np.linalg, "det", np.linalg.det))
            np.linalg.det = det
        elif f[0] == "det":
            real, n = np.linalg.det, [0]

            def det(*a, **k):
                n[0] += 1
                if n[0] - 1 == f[1]:
                    self.note("det-raises")
                    raise make_exc(f[2])
                return real(*a, **k)
            np.linalg.det = det
            self.stack.append((np.linalg, "det", real))
        if f[0] == "ivp":
            real_ivp = getattr(m, "solve_ivp", None)

            def ivp(*a, **k):
                if f[1] == "after":
                    real_ivp(*a, **k)
                    self.note("ivp-raises-after")
                else:
                    self.note("ivp-raises")
                raise make_exc(f[2])
            if real_ivp is not None:
                m.solve_ivp = ivp
                self.stack.append((m, "solve_ivp", real_ivp))
        return self

    def __exit__(self, *exc):
        for o, n, v in self.stack:
            setattr(o, n, v)
        self.err.__exit__(None, None, None)
        self.warn.__exit__(None, None, None)


def ask(fn):
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            return fn(), None
    except Exception as e:
        return None, e


def answers(m):
    """everything a solver object tells"""
    out = []
    for t in TT:
        for y in (m.sol_y1, m.sol_y2):
            for d in (0, 1, 2, 3):
                out.append(complex(y(t, d)))
    out.extend(complex(i) for i in np.ravel(m.init_value((.3, -.4), 1.5)))
    return out


def reference(a, q):
    """exponent and function giving the solutions, or None"""
    from scipy.integrate import solve_ivp

    def f(t, y):
        k = -(a - 2*q*np.cos(2*t))
        return [y[1], k*y[0], y[3], k*y[2]]

    s = solve_ivp(f, [0, np.pi], [1., 0., 0., 1.], method="DOP853",
                  rtol=1e-11, atol=1e-12)
    c = s.y[0, -1]
    if not abs(c) < .999:
        return None

    def at(t):
        if t == 0:
            return np.array([1., 0., 0., 1.])
        return solve_ivp(f, [0, t], [1., 0., 0., 1.], method="DOP853",
                         rtol=1e-10, atol=1e-11).y[:, -1]
    return np.arccos(c)/np.pi, at


def same(a, b):
    return np.allclose(a, b, rtol=1e-9, atol=1e-9*max(
        1, np.abs(np.where(np.isfinite(b), b, 0)).max()), equal_nan=True)


class Told(object):
    """what a solver created in a pristine process says"""


def init(m, key):
    return m.init_sol(key[0], key[1], **key[2])


def pristine(key, queries, fault):
    from electrode.mathieu import Mathieu
    r = Told()
    m = Mathieu()
    err = None
    if fault:
        with Conditions(fault):
            try:
                init(m, key)
            except Exception as e:
                err = e
    else:
        _, err = ask(lambda: init(m, key))
    r.err = None if err is None else repr(err)
    if err is None:
        w, werr = ask(lambda: answers(m))
        r.answers = w, None if werr is None else repr(werr)
        r.nu = m.nu
        r.queries = []
        for y, t, d in queries:
            t = np.array(t) if isinstance(t, list) else t
            w, werr = ask(lambda: getattr(m, y)(t, d))
            r.queries.append((w, None if werr is None else repr(werr)))
    return r


def execute(plan, sim):
    from electrode.mathieu import Mathieu
    objs = [Mathieu() for _ in range(3)]
    want = [None]*3      # arguments of the last successful initialisation
    fresh = {}
    queries = []
    for o in plan["ops"]:
        if o["op"] == "sol":
            q = ["sol_y%d" % o["y"], o["t"], o["d"]]
            if q not in queries:
                queries.append(q)

    def expect(key, fault=None):
        k = repr((key, fault))
        if k not in fresh:
            fresh[k] = core.apart.ask(pristine, key, queries, fault)
        return fresh[k]

    def verify(where):
        for i, m in enumerate(objs):
            got, err = ask(lambda: answers(m))
            if want[i] is None:
                sim.check(err is not None, "unearned-solution", lambda:
                          "%s: object %d was never initialised but has a "
                          "solution" % (where, i))
                sim.probe("no-solution")
                continue
            w, werr = expect(want[i]).answers
            sim.check((err is None) == (werr is None), "lost-solution",
                      lambda: "%s: object %d: %r, a fresh solver: %r" % (
                          where, i, err, werr))
            if err is not None:
                continue
            sim.check(same(got, w), "mixed-solution", lambda: "%s: object "
                      "%d differs from a fresh solver %s: %s != %s" % (
                          where, i, want[i], got[:4], w[:4]))
            n, nw = m.nu, expect(want[i]).nu
            sim.check(same(np.array([n]), np.array([nw])), "mixed-solution",
                      lambda: "%s: object %d has nu %s, fresh %s" % (
                          where, i, n, nw))

    for k, o in enumerate(plan["ops"]):
        where = "op %d %s" % (k, o["op"])
        i = o["i"]
        m = objs[i]
        if o["op"] == "copy":
            how = o["how"]
            c = {"copy": copy.copy, "deepcopy": copy.deepcopy,
                 "pickle": lambda x: pickle.loads(pickle.dumps(x)),
                 "new": lambda x: Mathieu()}[how](m)
            objs[o["j"]] = c
            want[o["j"]] = want[i] if how != "new" else None
            sim.probe("pickled" if how == "pickle" else "copied")
        elif o["op"] == "init":
            run_init(o, m, i, want, expect, sim, where)
        elif o["op"] == "sol":
            t = np.array(o["t"]) if isinstance(o["t"], list) else o["t"]
            y = "sol_y%d" % o["y"]
            got, err = ask(lambda: getattr(m, y)(t, o["d"]))
            if isinstance(o["t"], list):
                sim.probe("array-time")
                sim.check(list(t) == o["t"], "argument-changed", where)
            if want[i] is None:
                sim.check(err is not None, "unearned-solution", where)
            else:
                w, werr = expect(want[i]).queries[queries.index(
                    [y, o["t"], o["d"]])]
                sim.check((err is None) == (werr is None), "lost-solution",
                          where)
                if err is None:
                    sim.check(np.shape(got) == np.shape(t) and same(got, w),
                              "mixed-solution", lambda: "%s: %s != %s" % (
                                  where, got, w))
        elif o["op"] == "iv":
            run_iv(o, m, want[i], sim, where)
        elif o["op"] == "aux":
            run_aux(o, m, sim, where)
        verify(where)
        sim.log(o["op"], i, [w is not None for w in want])


def run_init(o, m, i, want, expect, sim, where):
    from electrode.mathieu import Mathieu
    key = [o["a"], o["q"], o["kw"]]
    f = o["fault"]
    it = None
    if f and f[0] == "int":
        with Conditions(None):
            n = count_lines(lambda: init(Mathieu(), key))
        if n:
            it = Interrupter(1 + int(f[1]*n), f[2])
    err = ferr = None
    if f and f[0] in ("fp", "warn"):
        ferr = expect(key, f).err
    else:
        ferr = expect(key).err
    with Conditions(None if it else f, sim) as c:
        try:
            if it:
                it.run(lambda: init(m, key))
            else:
                init(m, key)
        except BaseException as e:
            err = e
    fired = c.fired
    if it and it.fired:
        sim.fault("interrupt")
        fired = 1
    if f and f[0] in ("fp", "warn") and ferr is not None:
        sim.fault({"fp": "fp-raise", "warn": "warnings-raise"}[f[0]])
    mode = o["kw"].get("mode", "det")
    sim.state("init", mode, f[0] if f else "", type(err).__name__
              if err else "ok", [w is not None for w in want])
    if fired:
        sim.check(err is not None, "failure-swallowed", lambda: "%s: "
                  "succeeded after %s" % (where, f))
        sim.check(f[-1] == "nan" or is_injected(err), "failure-replaced", lambda: "%s: %s" % (
            where, core.short_tb(err)))
    else:
        sim.check((err is None) == (ferr is None), "unlike-fresh", lambda:
                  "%s %s: %r, a fresh solver: %r" % (where, key, err, ferr))
    if it and it.fired and ferr is None:
        # interrupted after the new solution was complete
        got, gerr = ask(lambda: answers(m))
        w = expect(key).answers
        if gerr is None and w[1] is None and same(got, w[0]) and same(
                np.array([m.nu]), np.array([expect(key).nu])):
            want[i] = key
            return
    if err is not None:
        sim.probe("failed-before-success" if want[i] is None else
                  "failed-after-success")
        if ferr is not None and not f:
            sim.nontrivial = True
            if mode not in ("det", "ivp", "d0ap"):
                sim.probe("bad-mode")
                sim.check(isinstance(err, ValueError), "wrong-failure",
                          lambda: "%s: %r" % (where, err))
            elif mode != "det" and o["kw"].get("nc") is None:
                sim.probe("nc-missing")
            elif not isinstance(o["a"], float):
                sim.probe("bad-type")
            elif o["kw"].get("tol_nu", 1) >= 1e-6 and ordinary(o) and all(
                    isinstance(o["kw"].get(k, 1), int) for k in ("nc", "ng")):
                r = reference(o["a"], o["q"])
                sim.check(r is None or not .02 < r[0] < .98,
                          "wrong-failure", lambda: "%s: a=%s q=%s is stable,"
                          " but %r" % (where, o["a"], o["q"], err))
                sim.probe("judged-failure")
        return
    sim.check(mode in ("det", "ivp", "d0ap"), "wrong-failure", lambda:
              "%s: mode %r accepted" % (where, mode))
    if want[i] is not None:
        sim.probe("reinitialised")
    want[i] = key
    sim.probe("mode-" + mode)
    if np.iscomplexobj(m.nu):
        sim.probe("unbounded")
    nc, ng = o["kw"].get("nc", 10), o["kw"].get("ng", 5)
    if nc >= 5 and ng >= 3 and ordinary(o):
        judge(o, m, sim, where)


def ordinary(o):
    return isinstance(o["a"], float) and isinstance(o["q"], float) and (
        0 < abs(o["q"]) < .7) and -.2 < o["a"] < .81


def judge(o, m, sim, where):
    """against the equation"""
    r = reference(o["a"], o["q"])
    if r is None:
        return
    nu, at = r
    if not .02 < nu < .98:
        return
    # the approximations are good for .0008 and .00004
    tol = {"det": 20*max(o["kw"].get("tol_nu", 1e-5), 1e-6), "d0ap": .003,
           "ivp": 2e-4}[o["kw"].get("mode", "det")]
    sim.check(abs(m.nu - nu) < tol, "wrong-exponent", lambda: "%s: "
              "a=%s q=%s nu=%s, expected %s" % (where, o["a"], o["q"], m.nu,
                                               nu))
    err = abs(m.nu - nu) + 1e-7
    for t in TT:
        w = at(t)
        g = np.array([m.sol_y1(t), m.sol_y1(t, 1), m.sol_y2(t),
                      m.sol_y2(t, 1)])
        tol = TOL*err*(np.abs(w).max() + 1.)/min(nu, 1-nu)
        sim.check(np.abs(g - w).max() < tol,
                  "wrong-solution", lambda: "%s: a=%s q=%s t=%s: %s, "
                  "expected %s" % (where, o["a"], o["q"], t, g, w))
        k = o["a"] - 2*o["q"]*np.cos(2*t)
        k1 = 4*o["q"]*np.sin(2*t)
        for y in (m.sol_y1, m.sol_y2):
            for n, r in ((2, y(t, 2) + k*y(t)),
                         (3, y(t, 3) + k*y(t, 1) + k1*y(t))):
                sim.check(abs(r) < 4*tol, "wrong-solution", lambda: "%s: "
                          "derivative %d is off by %s" % (where, n, r))
    sim.probe("judged-by-ode")


def auxiliary(o, m, nu):
    import contextlib
    import io
    a, q, n, how = o["a"], o["q"], o["n"], o["how"]
    if how == "det":
        return m.nu_exp_det(a, q, n)
    if how == "d0ap":
        return m.nu_exp_d0ap(a, q)
    if how == "RK45":
        return m.nu_exp_ivp(a, q) if n is None else m.nu_exp_ivp(a, q, n)
    if how == "Radau":
        return m.nu_exp_ivp(a, q, method=how)
    if how == "tolerance":
        return m.nu_tolerance(a, q)[0]
    with contextlib.redirect_stdout(io.StringIO()):
        return m.sum_c(a, q, nu, n, 5)


def run_aux(o, m, sim, where):
    """single steps asked for directly: the solution is not touched"""
    r = reference(o["a"], o["q"])
    if r is None or not .02 < r[0] < .98:
        return
    nu = r[0]
    it = None
    with Conditions(None):
        if o.get("fault"):
            n = count_lines(lambda: auxiliary(o, m, nu))
            it = Interrupter(1 + int(o["fault"][1]*n), o["fault"][2])
        try:
            got = it.run(lambda: auxiliary(o, m, nu)) if it else \
                auxiliary(o, m, nu)
            err = None
        except BaseException as e:
            err = e
    if it and it.fired:
        sim.fault("interrupt")
        sim.check(is_injected(err), "failure-swallowed", where)
        return
    if err is not None:
        sim.check(False, "unexpected-failure", lambda: "%s: %s" % (
            where, core.short_tb(err)))
    if o["how"] != "sums":
        tol = {"det": .2/(o["n"] or 5)**3, "d0ap": .004, "RK45": .02,
               "Radau": 2e-4, "tolerance": 2e-5}[o["how"]]
        sim.check(abs(got - nu) < tol, "wrong-exponent", lambda: "%s by %s: "
                  "a=%s q=%s nu=%s, expected %s" % (
                      where, o["how"], o["a"], o["q"], got, nu))
        sim.probe("exponent-alone")
        return
    with Conditions(None):
        C, S, _ = m.coeff_Cn(o["a"], o["q"], nu, o["n"], 5)
    k = np.arange(-o["n"], o["n"]+1)
    v = nu + 2*k
    g = (o["a"] - v**2)/o["q"]
    parts = [k*C, v*C, g*C, g*k*C, S, v*S]
    sim.check(len(got) == 6 and all(
        abs(i - w.sum()) < 1e-9*np.abs(w).sum() for i, w in zip(got, parts)),
        "wrong-sums", lambda: "%s: %s, expected %s" % (
            where, got, [w.sum() for w in parts]))
    # normalised, and solving the recurrence
    rec = g[1:-1]*C[1:-1] - C[2:] - C[:-2]
    sim.check(abs(C.sum()-1) < 1e-9 and abs((v*S).sum()-1) < 1e-9 and
              np.abs(rec).max() < 1e-5*np.abs(g*C).max(),
              "wrong-coefficients", lambda: "%s: %s off by %s" % (
                  where, C, rec))
    sim.probe("sums")


def run_iv(o, m, key, sim, where):
    it = None
    y0 = list(o["y0"])
    args = (y0, o["t0"])[:o.get("args", 2)]
    if o.get("fault") and key is not None:
        n = count_lines(lambda: m.init_value(*args))
        if n:
            it = Interrupter(1 + int(o["fault"][1]*n), o["fault"][2])
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            if it:
                ab = it.run(lambda: m.init_value(*args))
            else:
                ab = m.init_value(*args)
        err = None
    except BaseException as e:
        err = e
    sim.check(y0 == o["y0"], "argument-changed", where)
    if it and it.fired:
        sim.fault("interrupt")
        sim.check(is_injected(err), "failure-swallowed", where)
        return
    if key is None:
        sim.check(err is not None or o["t0"] == 0, "unearned-solution",
                  where)
        return
    if err is not None:
        def parts():
            return [y(o["t0"], d) for y in (m.sol_y1, m.sol_y2)
                    for d in (0, 1)]
        v, verr = ask(parts)
        sim.check(verr is not None or not np.all(np.isfinite(v)),
                  "unexpected-failure", lambda: "%s: %r" % (where, err))
        return
    t0 = o["t0"]
    B = [m.sol_y1(t0, 0), m.sol_y2(t0, 0), m.sol_y1(t0, 1), m.sol_y2(t0, 1)]
    B = np.array(B).reshape(2, 2)
    if not np.all(np.isfinite(B)) or np.linalg.cond(B) > 1e6:
        return
    got = np.dot(B, ab)
    sim.check(np.abs(got - y0).max() < 1e-6*np.linalg.cond(B),
              "wrong-initial-value", lambda: "%s: %s at %s, prescribed %s" % (
                  where, got, t0, y0))
    sim.probe("initial-value")
