"""Several ions settle at equilibrium positions."""
import copy

import numpy as np

from .. import core, world
from ..core import Interrupter, count_lines, is_injected
from . import c07
from .c16 import AMU, QE, NUM

ID = "C27"
RUNS = {"quick": 350, "thorough": 40000}
BATCH = 10
RULE = ("A run is a random sequence of equilibrium searches for two to four "
        "ions of equal and different charges, and of reports for several "
        "ions from random starts (seeded), with voltage changes in between "
        "and failing electrodes and interrupts at any executed line. "
        "Positions and modes are judged with an independent energy, gradient "
        "and curvature of trap and repulsion. Non-trivial: a fault fired or "
        "voltages changed.")
REAL = ["System.ions, analyze_static", "System potential methods",
        "scipy.optimize", "numpy.random (seeded by the simulator)"]
STUB = ["analytic harmonic electrodes", "failing electrode wrapper"]
STATE_MEASURE = "distinct (operation, ions, charges equal, fault, outcome)"
FAULTS = ["electrode-raises-before", "electrode-raises-mid",
          "electrode-raises-after", "electrode-nan", "interrupt"]
PROBES = ["judged-equilibrium", "judged-modes", "judged-report",
          "after-voltage-change", "different-charges", "ran-away",
          "unstable-equilibrium"]
ASSUMPTIONS = ["not judged where the potential is not bounded below and ions "
               "leave, or where the curvature at the equilibrium is nearly "
               "singular"]
EPS0 = 8.8541878128e-12
EXC = c07.EXC
ASYNC = c07.ASYNC


def gen(rng, idx):
    els, scale = c07.gen_trap(rng)
    bowl = rng.random() < .7
    if bowl:
        # a bowl without any way out
        els = [[{"t": "H", "f": [[2, 0, rng.choice([.8, 1., 1.5])],
                                 [1, 0, world.rnd(rng, -.2, .2)]],
                 "g": [[0, 0, world.rnd(rng, -.2, .2)]]}, 0., 1.],
               [{"t": "H", "f": [[0, 2, .4], [2, 0, -.2], [
                   1, 1, world.rnd(rng, -.05, .05)]], "g": []}, 1., 0.]]
    ops = []
    for _ in range(rng.randint(1, 4)):
        if ops and rng.random() < .3:
            ops.append({"op": "volt", "i": rng.randint(0, 5),
                        "k": rng.choice(["dc", "rf"]),
                        "f": rng.choice([.7, 1.3, 1.05, .9])})
            continue
        n = rng.choice([2, 2, 2, 3, 3, 4])
        o = {"op": rng.choice(["ions", "ions", "report"]), "n": n,
             "fault": None}
        if o["op"] == "ions":
            s = rng.choice([.05, .3, .6])
            o["x"] = [[round(rng.uniform(-s, s), 3) for _ in range(3)]
                      for _ in range(n)]
            k = round(10**rng.uniform(-2, -.5), 4)
            o["q"] = [k]*n if rng.random() < .6 else [
                round(k*rng.choice([.5, 1, 1, 2]), 4) for _ in range(n)]
        else:
            o["x"] = [round(rng.uniform(-.2, .2), 3) for _ in range(3)]
            o["seed"] = rng.randint(0, 2**31)
            o["l"] = rng.choice([1e-4, 5e-5, 2e-4])
            o["m"] = rng.choice([9., 25., 40.])
            o["z"] = rng.choice([1, 1, 2])
        r = rng.random()
        if r < .15:
            o["fault"] = ["int", round(rng.random(), 4), rng.choice(ASYNC)]
        elif r < .35:
            o["fault"] = ["el", rng.randint(0, 5), rng.randint(0, 30),
                          rng.choice(["before", "mid", "after", "nan"]),
                          rng.choice(EXC)]
        ops.append(o)
    return {"els": els, "scale": scale, "ops": ops, "bowl": bowl}


SHRINK = ("ops", "els")


def shrink(plan):
    for k, o in enumerate(plan["ops"]):
        if o["op"] == "volt":
            continue
        if o["fault"]:
            c = copy.deepcopy(plan)
            c["ops"][k]["fault"] = None
            yield c
        if o["op"] == "ions" and o["n"] > 2:
            c = copy.deepcopy(plan)
            d = c["ops"][k]
            d["n"] -= 1
            d["x"].pop()
            d["q"].pop()
            yield c


def energy(ref, x, q):
    """Energy, its gradient and curvature."""
    x = np.asarray(x, float).reshape(-1, 3)
    n = len(x)
    E = float(sum(c07.total(ref, y, 0)[0] for y in x))
    G = np.array([c07.total(ref, y, 1)[0] for y in x])
    H = np.zeros((n, 3, n, 3))
    for i in range(n):
        H[i, :, i, :] = c07.total(ref, x[i], 2)[0]
    for i in range(n):
        for j in range(n):
            if i == j:
                continue
            d = x[i]-x[j]
            r = np.sqrt(np.dot(d, d))
            k = q[i]*q[j]
            E += k/r/2
            G[i] -= k*d/r**3
            T = k*(3*np.outer(d, d)/r**5 - np.eye(3)/r**3)
            H[i, :, i, :] += T
            H[i, :, j, :] -= T
    return E, G.ravel(), H.reshape(3*n, 3*n)


def settle(ref, x, q):
    """(positions, curvature) of the equilibrium that the given positions
    are as good as at, or None"""
    x = np.array(x, float)
    for _ in range(6):
        E, g, H = energy(ref, x, q)
        if not (np.all(np.isfinite(H)) and np.all(np.isfinite(g))):
            return None
        ev = np.linalg.eigvalsh(H)
        if np.abs(ev).min() < 1e-2*np.abs(ev).max():
            return None
        x = x - np.linalg.solve(H, g).reshape(-1, 3)
    return x


def judge_ions(ref, o, res, sim, where):
    q = np.array(o["q"], float)
    n = o["n"]
    sim.check(isinstance(res, tuple) and len(res) == 3, "wrong-shape",
              where)
    x, ew, ev = (np.asarray(i) for i in res)
    sim.check(x.shape == (n, 3) and ew.shape == (3*n,)
              and ev.shape == (n, 3, 3*n), "wrong-shape", lambda:
              "%s returned shapes %s" % (where, [
                  i.shape for i in (x, ew, ev)]))
    if not np.all(np.isfinite(x)) or np.abs(x).max() > 20:
        sim.probe("ran-away")
        return
    E, g, H = energy(ref, x, q)
    E0 = energy(ref, o["x"], q)[0]
    if not np.all(np.isfinite(H)):
        return
    sim.check(E <= E0 + 1e-9*(abs(E) + abs(E0) + 1), "uphill", lambda:
              "%s ends at an energy of %g, started at %g" % (where, E, E0))
    w, V = np.linalg.eigh(H)
    hs = np.abs(w).max()
    if min(np.linalg.norm(x[i]-x[j]) for i in range(n)
           for j in range(i)) < 1e-3:
        return
    sim.probe("judged-modes")
    sim.check(bool(np.all(np.abs(ew-w) <= 1e-6*hs)), "wrong-modes", lambda:
              "%s curvatures %s, they are %s" % (where, ew, w))
    U = ev.reshape(3*n, 3*n)
    sim.check(np.abs(np.dot(U.T, U) - np.eye(3*n)).max() < 1e-8
              and np.abs(np.dot(H, U) - U*ew).max() <= 1e-6*hs,
              "wrong-modes", lambda: "%s modes do not diagonalise the "
              "curvature" % where)
    if np.abs(w).min() < .01*hs:
        sim.probe("ill-conditioned")
        return
    step = np.linalg.solve(H, g)
    sim.probe("judged-equilibrium")
    if len(set(o["q"])) > 1:
        sim.probe("different-charges")
    sim.check(np.abs(step).max() <= 2e-3,
              "not-an-equilibrium", lambda:
              "%s positions %s, still %s from equilibrium" % (
                  where, x.tolist(), np.abs(step).max()))


def judge_report(ref, o, lines, sim, where):
    n, l = o["n"], o["l"]
    m, q = o["m"]*AMU, o["z"]*QE
    at = [i for i, s in enumerate(lines) if "ion modes" in s]
    sim.check(len(at) == 1, "line-lost", lambda: "%s has no part on several "
              "ions: %s" % (where, lines[-3:]))
    part = lines[at[0]+1:]
    k = min(6, 3*n)
    sim.check(len(part) >= 1 + k, "line-lost", lambda: "%s ends with %s" % (
        where, part))
    sep = [float(i) for i in NUM.findall(part[0])]
    fr = [float(NUM.findall(s)[0]) for s in part[1:1+k]]
    vec = [[float(i) for i in NUM.findall(s)[1:]] for s in part[1:1+k]]
    sim.check(len(sep) == 3 and all(len(v) == 3*n for v in vec),
              "wrong-line", lambda: "%s says %s" % (where, part))
    sim.check(abs(sep[1] - sep[0]*l/1e-6) <= .02*abs(sep[1]), "wrong-line",
              lambda: "%s: %s" % (where, part[0]))
    qn = np.ones(n)*np.sqrt(q/(4*np.pi*EPS0*l))
    hess = np.linalg.eigvalsh(c07.total(ref, np.array(o["x"], float), 2)[0])
    with np.errstate(all="ignore"):
        want = (q*l**2/(2*np.pi*EPS0*hess[0]))**(1/3.)/1e-6
    if hess[0] > 1e-3*np.abs(hess).max():
        sim.check(abs(sep[2]-want) <= .02*want, "wrong-line", lambda:
                  "%s: %s, the distance in a harmonic trap is %g" % (
                      where, part[0], want))
    if not np.all(np.isfinite(fr)):
        # settled on a ridge, as the frequencies say
        sim.probe("unstable-equilibrium")
        return
    x = equilibrium(ref, np.array(o["x"], float), qn)
    if x is None:
        sim.probe("no-reference")
        return
    E, g, H = energy(ref, x, qn)
    w, V = np.linalg.eigh(H)
    f = np.sqrt(q*w/m)/(2*np.pi*l)/1e6
    sim.probe("judged-report")
    ds = [np.linalg.norm(x[i]-x[j]) for i in range(n) for j in range(i)]
    sim.check(min(abs(sep[0]-d) - .02*d for d in ds) <= 0, "wrong-line",
              lambda: "%s: %s, the ions are %s apart" % (where, part[0], ds))
    if n == 2:
        d = np.linalg.norm(x[0]-x[1])
        sim.check(abs(sep[0]-d) <= .02*d, "wrong-line", lambda: "%s: %s, the "
                  "ions are %g apart" % (where, part[0], d))
    sim.check(np.abs(np.array(fr)-f[:k]).max() <= 5e-3*np.abs(f).max(),
              "wrong-line", lambda: "%s frequencies %s, they are %s" % (
                  where, fr, f))
    for i in range(k):
        gap = min([abs(w[i]-w[j]) for j in range(3*n) if j != i])
        if gap < .02*np.abs(w).max():
            continue
        v = np.array(vec[i])
        # ions come in any order
        a = v.reshape(n, 3)
        b = V[:, i].reshape(n, 3)
        best = max(abs(np.sum(a[list(p)]*b)) for p in perms(n))
        sim.check(best > .98, "wrong-line", lambda: "%s mode %s, it is %s" % (
            where, vec[i], b.tolist()))


def perms(n):
    import itertools
    return itertools.permutations(range(n))


def equilibrium(ref, x, q):
    """The one equilibrium near x, where the trap is a steep bowl there"""
    n = len(q)
    with np.errstate(all="ignore"):
        for _ in range(30):
            g = c07.total(ref, x, 1)[0]
            H = c07.total(ref, x, 2)[0]
            if not np.all(np.isfinite(H)):
                return None
            w, V = np.linalg.eigh(H)
            if w[0] < .02*w[2] or w[0] < 1e-2:
                return None
            x = x - np.linalg.solve(H, g)
            if np.abs(x).max() > .5:
                return None
        if w[1] < 3.*w[0]*(1 if n == 2 else 2) or n > 3:
            return None    # not a chain along the weak axis
        d = (q[0]**2*2/w[0])**(1/3.)
        if d > .2:
            return None
        # chain along the weak axis
        s = d/2*np.array([-1, 1]) if n == 2 else (
            (1.25*q[0]**2/w[0])**(1/3.)*np.array([-1., 0, 1]))
        X = x + s[:, None]*V[:, 0]
        for _ in range(30):
            E, g, H = energy(ref, X, q)
            if not np.all(np.isfinite(H)):
                return None
            X = X - np.linalg.solve(H, g).reshape(-1, 3)
            if not np.all(np.isfinite(X)) or np.abs(X-x).max() > 1:
                return None
        w = np.linalg.eigvalsh(energy(ref, X, q)[2])
        if np.abs(g).max() > 1e-6 or w[0] <= 1e-3*w[-1]:
            return None
    return X


def call(b, o):
    if o["op"] == "ions":
        x, q = np.array(o["x"]), np.array(o["q"])
        res = b.S.ions(x, q)
        return res, bool(np.array_equal(x, o["x"])
                         and np.array_equal(q, o["q"]))
    np.random.seed(o["seed"])
    return list(b.S.analyze_static(
        np.array(o["x"]), m=o["m"]*AMU, q=o["z"]*QE, l=o["l"],
        o=2*np.pi*20e6, ions=o["n"], min_off=True)), True


def execute(plan, sim):
    b = c07.Bench(plan["els"], plan["scale"])
    if not b.els:
        return
    changed = False
    for k, o in enumerate(plan["ops"]):
        if o["op"] == "volt":
            i = o["i"] % len(b.els)
            j = 1 if o["k"] == "dc" else 2
            b.els[i][j] *= o["f"]
            setattr(b.objs[i], o["k"], b.els[i][j])
            changed = sim.nontrivial = True
            continue
        where = "op %d %s" % (k, o["op"])
        f = o["fault"]
        it = None
        with np.errstate(all="ignore"):
            if f and f[0] == "int":
                try:
                    tot = count_lines(lambda: call(b, o))
                except Exception:
                    tot = 0
                if tot:
                    it = Interrupter(1 + int(f[1]*tot), f[2])
            if f and f[0] == "el":
                b.objs[f[1] % len(b.objs)].arm({f[2]: (f[3], f[4])}, sim)
            before = sum(sim.faults.values())
            res = err = None
            try:
                res = it.run(lambda: call(b, o)) if it else call(b, o)
            except BaseException as e:
                err = e
        for e in b.objs:
            e.disarm()
        if it and it.fired:
            sim.fault("interrupt")
        fired = sum(sim.faults.values()) - before
        out = type(err).__name__ if err else "ok"
        sim.log(o["op"], out, fired)
        sim.state(o["op"], o["n"], f[0] if f else None, out)
        nan = fired and f[0] == "el" and f[3] == "nan"
        if fired and not nan and not (o["op"] == "report" and f[0] == "el"
                                      or f[0] == "int" and f[2] ==
                                      "MemoryError"):
            # (a report goes on without a saddle)
            sim.check(err is not None, "failure-swallowed",
                      lambda: "%s returned after a %s" % (where, f))
            sim.check(is_injected(err), "failure-replaced", lambda: "%s "
                      "raised %s after %s" % (where, core.short_tb(err), f))
        if fired:
            # must not matter to the next one
            try:
                with np.errstate(all="ignore"):
                    res, err = call(b, o), None
            except Exception as e:
                err = e
        if err is not None:
            bad = core.raised_in_package(err) and not isinstance(
                err, (np.linalg.LinAlgError, ArithmeticError))
            sim.check(not bad, "no-answer", lambda: "%s fails with %s" % (
                where, core.short_tb(err)))
            continue
        if changed:
            sim.probe("after-voltage-change")
        res, kept = res
        sim.check(kept, "input-changed", "%s changed its arguments" % where)
        ref = b.ref()
        if o["op"] == "ions":
            judge_ions(ref, o, res, sim, where)
        elif plan["bowl"]:
            judge_report(ref, o, res, sim, where)
