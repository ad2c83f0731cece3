"""Minimum and saddle searches succeed only when converged."""
import copy

import numpy as np

from .. import core, world
from ..core import Interrupter, count_lines, is_injected
from ..optim import rot

ID = "C07"
RUNS = {"quick": 3000, "thorough": 60000}
BATCH = 12
RULE = ("A run is a random sequence of minimum and saddle searches (methods, "
        "axis subsets, rotated coordinates, iteration limits) and voltage "
        "changes on analytic and surface traps, some with a failing or nan "
        "electrode, a raising callback or an interrupt. Each returned point "
        "is judged with independently computed derivatives and compared with "
        "the same search on a fresh system. Non-trivial: a fault fired.")
REAL = ["System.minimum, System.saddle, rfo", "System potential methods",
        "scipy.optimize"]
STUB = ["analytic harmonic electrodes", "failing electrode wrapper"]
STATE_MEASURE = "distinct (search, method, axes, rotated, fault, outcome)"
FAULTS = ["electrode-raises-before", "electrode-raises-mid",
          "electrode-raises-after", "electrode-nan", "interrupt",
          "callback-raises", "callback-stops"]
PROBES = ["minimum-found", "saddle-found", "out-of-iterations",
          "judged-minimum", "judged-saddle", "rotated", "axis-subset",
          "integer-start", "started-far", "well-placed-minimum",
          "well-placed-saddle"]
ASSUMPTIONS = ["convergence is judged where the curvature in the searched "
               "directions is not nearly singular",
               "derivative-free searches that met a nan are not judged",
               "Nelder-Mead searches that start within its tolerance of a "
               "coordinate plane are only judged as downhill",
               "not judged where a polynomial test potential has no lower "
               "bound and the search runs away along it"]
EXC = ["Injected", "ValueError", "MemoryError", "KeyboardInterrupt",
       "InjectedBase", "FloatingPointError", "RuntimeError"]
ASYNC = ["KeyboardInterrupt", "MemoryError", "InjectedBase"]
METHODS = ["Newton-CG", "Newton-CG", "Nelder-Mead", "BFGS", "Powell", "CG",
           "trust-ncg"]


def gen_trap(rng):
    """harmonic trap with a minimum near the origin and a saddle off it"""
    k = rng.choice([.2, .4, 1.])
    c = rng.choice([0, .1, -.15, .3])
    a = rng.choice([.8, 1., 1.5])
    t = world.rnd(rng, -.05, .05)
    els = [[{"t": "H", "f": [[2, 0, a], [1, 0, world.rnd(rng, -.2, .2)]],
             "g": [[0, 0, world.rnd(rng, -.2, .2)]]}, 0., 1.],
           [{"t": "H", "f": [[0, 2, k], [2, 0, -k/2]] + (
               [[0, 3, c]] if c else []) + ([[1, 1, t]] if t else []),
             "g": []}, 1., 0.]]
    for _ in range(rng.randint(0, 2)):
        els.append([world.gen_spec(rng, "H", 2), rng.choice([0, .01, .05]),
                    rng.choice([0, 0, .01])])
    return els, rng.choice([1., 1., .7])


def gen_saddle(rng):
    """a trap with a saddle close to the origin"""
    while True:
        els = [[{"t": "H", "f": [[2, 0, world.rnd(rng, -1, 1)], [
                    0, 2, world.rnd(rng, -1, 1)], [1, 1, world.rnd(
                        rng, -1, 1)], [1, 0, world.rnd(rng, -.06, .06)],
                    [0, 3, world.rnd(rng, -.1, .1)]],
                 "g": [[1, 0, world.rnd(rng, -.06, .06)]]}, 1., 0.],
               [{"t": "H", "f": [[2, 0, world.rnd(rng, .1, .6)]], "g": []},
                0., rng.choice([0., 1., 1.])]]
        H = total(world.Ref([e[0] for e in els], [e[1] for e in els],
                            [e[2] for e in els], 1.), np.zeros(3), 2)[0]
        ev = np.linalg.eigvalsh(H)
        if (ev < 0).sum() == 1 and np.abs(ev).min() > .2*np.abs(ev).max():
            return els, 1.


def gen_surface(rng):
    def rail(y0, y1):
        return [[-20., y0], [20., y0], [20., y1], [-20., y1]]

    els = [[{"t": "P", "paths": [rail(.5, 1.7), rail(-1.7, -.5)],
             "cover_nmax": 0, "cover_height": 50.}, 0., rng.choice([2., 3.])]]
    for x0, x1, v in ((-6., -1.5, .2), (-1.5, 1.5, -.05), (1.5, 6., .2)):
        els.append([{"t": "P", "paths": [[[x0, -.5], [x1, -.5], [x1, .5],
                                          [x0, .5]]],
                     "cover_nmax": 0, "cover_height": 50.},
                    round(v*rng.uniform(.5, 1.5), 3), 0.])
    return els, 1.


def gen(rng, idx):
    surf = rng.random() < .15
    sad = not surf and rng.random() < .15
    els, scale = (gen_surface if surf else gen_saddle if sad else
                  gen_trap)(rng)
    ops = []
    for _ in range(rng.randint(1, 4)):
        if rng.random() < .25 and ops:
            ops.append({"op": "volt", "i": rng.randint(0, 5),
                        "k": rng.choice(["dc", "rf"]),
                        "f": rng.choice([0., .5, 1.2, -1., 1.05])})
            continue
        far = rng.random() < .3
        s = .9 if far else .08 if sad else .25
        x = [round(rng.uniform(-s, s), 3) for _ in range(3)]
        if surf:
            x[2] = round(abs(x[2])+.6, 3)
        if rng.random() < .1:
            x = [rng.randint(-1, 1) for _ in range(3)]
            if surf:
                x[2] = 1
        o = {"op": "saddle" if sad and rng.random() < .6 else
             rng.choice(["minimum", "minimum", "saddle"]), "x": x,
             "axis": rng.choice([[0, 1, 2], [0, 1, 2], [0, 1, 2], [1, 2],
                                 [0, 2], [0], [2], [2, 0, 1], [1]]),
             "rot": rng.choice([None, None, world.rnd(rng, -3, 3)]),
             "far": far, "fault": None}
        if surf:
            o["rot"] = rng.choice([None, None, .1])
        if o["op"] == "minimum":
            o["method"] = rng.choice(METHODS)
            o["maxiter"] = rng.choice([None, None, None, 1, 2, 5, 30])
        else:
            o["maxiter"] = rng.choice([None, None, 1, 2, 3, 5, 20])
            o["tol"] = rng.choice([None, None, 1e-7, 1e-3])
            o["dx"] = rng.choice([None, None, .5, .02])
            if sad and rng.random() < .7:
                o["maxiter"] = None
        r = rng.random()
        if r < .15:
            o["fault"] = ["int", round(rng.random(), 4), rng.choice(ASYNC)]
        elif r < .35:
            o["fault"] = ["el", rng.randint(0, 5), rng.choice(
                [0, 1, 2, 3, rng.randint(0, 60)]), rng.choice(
                ["before", "mid", "after", "nan", "nan"]), rng.choice(EXC),
                rng.random() < .5]
        elif r < .45:
            o["fault"] = ["cb", rng.randint(0, 6), rng.choice(
                EXC + ["StopIteration"]*3)]
        ops.append(o)
    return {"els": els, "scale": scale, "ops": ops}


SHRINK = ("ops", "els")


def shrink(plan):
    for k, o in enumerate(plan["ops"]):
        if o["op"] == "volt":
            continue
        for key, v in (("fault", None), ("rot", None), ("axis", [0, 1, 2]),
                       ("maxiter", None), ("tol", None), ("dx", None)):
            if key in o and o[key] != v:
                c = copy.deepcopy(plan)
                c["ops"][k][key] = v
                yield c
        if any(o["x"]):
            c = copy.deepcopy(plan)
            c["ops"][k]["x"] = [0, 0, plan["ops"][k]["x"][2]]
            if c != plan:
                yield c


class Bench(object):
    def __init__(self, els, scale):
        C = world.classes()
        self.els = [list(e) for e in els]
        self.objs = [C.Faulty(world.make_inner(s, name="e"), name="e%d" % i,
                              dc=dc, rf=rf)
                     for i, (s, dc, rf) in enumerate(els)]
        self.S = C.System(self.objs)
        self.S.rf_coeff = scale
        self.scale = scale

    def ref(self):
        return world.Ref([e[0] for e in self.els], [e[1] for e in self.els],
                         [e[2] for e in self.els], self.scale)

    def search(self, o, cb=None):
        R = rot(o["rot"])
        kw = {} if R is None else {"coord": R}
        x = np.array(o["x"]) if o["x"][0] != 0 else list(o["x"])
        # defaults are left out now and then
        args = [] if o["axis"] == [0, 1, 2] and x[0] > 0 else [o["axis"]]
        if o["op"] == "minimum":
            if o["maxiter"]:
                kw["options"] = {"maxiter": o["maxiter"]}
            if cb is not None:
                kw["callback"] = cb
            if o["method"] != "Newton-CG" or x[1] < 0:
                kw["method"] = o["method"]
            return self.S.minimum(x, *args, **kw)
        if o["maxiter"]:
            kw["maxiter"] = o["maxiter"]
        if o["tol"]:
            kw["xtol"] = kw["ftol"] = o["tol"]
        if o["dx"]:
            kw["dx_max"] = o["dx"]
        if cb is not None:
            kw["cb"] = cb
        return self.S.saddle(x, *args, **kw)


def total(ref, x, d):
    e = ref.electrical(x, d, "dc")
    return world.expand(e) + ref.pseudo(x, d)


def judge(ref, o, res, sim, where, nan=False):
    """Is the returned point a converged one?"""
    R = rot(o["rot"])
    R = np.eye(3) if R is None else R
    axis = list(o["axis"])
    if o["op"] == "minimum":
        x = res
    else:
        sim.check(isinstance(res, tuple) and len(res) == 2, "wrong-shape",
                  where)
        x, p = res
    x = np.asarray(x)
    sim.check(x.shape == (3,) and bool(np.all(np.isfinite(x))),
              "wrong-shape", lambda: "%s returned %s" % (where, x))
    for i in range(3):
        if i not in axis:
            sim.check(x[i] == o["x"][i], "unsearched-coordinate-moved",
                      lambda: "%s coordinate %d is %s, given %s" % (
                          where, i, x[i], o["x"][i]))
    if np.abs(x).max() > 1e3:
        # ran away in a potential that is not bounded below
        sim.probe("ran-away")
        return
    y = np.dot(R, x)
    f = float(total(ref, y, 0)[0])
    x0 = np.array(o["x"], float)
    f0 = float(total(ref, np.dot(R, x0), 0)[0])
    # d/dxi = R[:, i].grad
    g = np.dot(R.T, total(ref, y, 1)[0])[axis]
    H = np.dot(np.dot(R.T, total(ref, y, 2)[0]), R)[axis][:, axis]
    sim.check(bool(np.isfinite(f)), "not-converged", lambda: "%s returned "
              "%s, where the potential is %s" % (where, x, f))
    if not np.all(np.isfinite(H)):
        sim.probe("ill-conditioned")
        return
    ev = np.linalg.eigvalsh(H)
    mag = abs(f) + abs(f0)
    if nan and o["op"] == "minimum" and o["method"] in ("Nelder-Mead",
                                                        "Powell"):
        sim.probe("misled-by-nan")
        return
    if o["op"] == "minimum":
        sim.check(f <= f0 + 1e-9*(1+mag), "uphill", lambda: "%s ends at a "
                  "potential of %g, started at %g" % (where, f, f0))
    else:
        sim.check(abs(p - f) <= 1e-8*(1 + mag), "wrong-potential",
                  lambda: "%s reports a potential of %s, it is %s" % (
                      where, p, f))
    far = np.abs(x).max() > 10
    if np.abs(ev).min() < .02*np.abs(ev).max() or far or not np.all(
            np.isfinite(ev)) or np.abs(ev).max() < 1e-2:
        sim.probe("ill-conditioned")
        return
    step = np.linalg.solve(H, g)
    s = float(np.abs(step).max())
    df = abs(float(np.dot(g, step)))/2
    if o["op"] == "saddle":
        return
    if o["method"] == "Nelder-Mead" and tiny(o):
        # its first simplex is then within the tolerances
        sim.probe("tiny-simplex")
        return
    sim.probe("judged-minimum")
    loose = {"Nelder-Mead": .03, "Powell": .03}.get(o["method"], .003)
    ok = s <= loose*(1 + np.abs(x).max()) or df <= 1e-6
    sim.check(ok, "not-converged", lambda: "%s returned %s, still %g "
              "(potential %g) from a stationary point" % (where, x, s, df))
    sim.check(ev.min() > 0 or df <= 1e-9, "not-a-minimum", lambda: "%s "
              "curvatures %s" % (where, ev))


def judge_saddle(ref, o, trace, res, sim, where):
    """The last step has to meet one of the two stop criteria."""
    R = rot(o["rot"])
    R = np.eye(3) if R is None else R
    axis = list(o["axis"])
    tol = o["tol"] or 1e-5
    x = np.asarray(res[0])
    if np.abs(x).max() > 1e3:
        return
    sim.check(len(trace) > 1, "not-converged", "%s returned after no step"
              % where)
    pts = []
    for t in trace[-2:]:
        y = np.array(o["x"], float)
        y[axis] = t[0]
        pts.append(y)
    sim.close(pts[1], x, "wrong-point", "%s returned point and last one "
              "reported to the callback" % where, rtol=1e-9, atol=1e-12)
    f = [float(total(ref, np.dot(R, y), 0)[0]) for y in pts]
    g = np.dot(R.T, total(ref, np.dot(R, pts[1]), 1)[0])[axis]
    g0 = np.dot(R.T, total(ref, np.dot(R, np.array(o["x"], float)), 1)[0])
    # (a nan contribution to the very last gradient does not matter any more)
    if np.all(np.isfinite(trace[-1][2])) or not o["fault"]:
        sim.close(trace[-1][2], g, "wrong-gradient", "%s gradient at the end "
                  "in the given coordinate system" % where, rtol=1e-6,
                  atol=1e-7*(1 + np.abs(g0).max()))
    y = [p[axis] for p in pts]
    dx = 2*np.linalg.norm(y[1]-y[0])/(tol*(
        np.linalg.norm(y[1])+np.linalg.norm(y[0])+1e-20))
    df = 2*abs(f[1]-f[0])/(tol*(abs(f[1])+abs(f[0])+1e-20))
    eps = 1e-12*max(1, abs(f[0]))/(tol*(abs(f[1])+abs(f[0])+1e-20))
    dmax = o["dx"] or .1
    sim.probe("judged-saddle")
    sim.check(dx <= 1.001 or df <= 1.001 + eps, "not-converged", lambda:
              "%s returned %s after a step that is %.3g times too long and "
              "%.3g times too high for the tolerances" % (where, x, dx, df))
    sim.check(np.linalg.norm(y[1]-y[0]) <= dmax*(1+1e-9), "step-too-long",
              lambda: "%s step %s" % (where, y))


def tiny(o):
    return min(abs(o["x"][i]) for i in o["axis"]) < .04


def placed(ref, o):
    """The stationary point of the wanted kind that the start is well placed
    for: the curvature is about the same all the way."""
    R = rot(o["rot"])
    R = np.eye(3) if R is None else R
    axis = list(o["axis"])
    x = np.array(o["x"], float)
    H0 = None
    with np.errstate(all="ignore"):
        for _ in range(12):
            y = np.dot(R, x)
            g = np.dot(R.T, total(ref, y, 1)[0])[axis]
            H = np.dot(np.dot(R.T, total(ref, y, 2)[0]), R)[axis][:, axis]
            if not (np.all(np.isfinite(H)) and np.all(np.isfinite(g))):
                return None
            ev = np.linalg.eigvalsh(H)
            neg = int((ev < 0).sum())
            if neg != (o["op"] == "saddle") or np.abs(ev).max() < .05 or \
                    np.abs(ev).min() < .1*np.abs(ev).max():
                return None
            if H0 is None:
                H0 = H
            if np.abs(H-H0).max() > .15*np.abs(ev).min():
                return None
            dx = -np.linalg.solve(H, g)
            x[axis] += dx
            if np.abs(x-o["x"]).max() > .2:
                return None
            if np.abs(dx).max() < 1e-10:
                return x
    return None


def progress(b, o, err, res, sim, where):
    x = placed(b.ref(), o)
    if x is None:
        return
    if o.get("method") == "Nelder-Mead" and tiny(o):
        return
    sim.probe("well-placed-" + o["op"])
    for k in range(1, 6):
        # the last digits may cost a search its success, but not from all
        # sides
        if err is None:
            break
        y = np.array(o["x"], float)
        y[o["axis"]] += (x-y)[o["axis"]]*.13*k
        res, err = again(Bench(b.els, b.scale), dict(o, x=y.tolist()))
    sim.check(err is None, "no-answer", lambda: "%s starting close to %s "
              "fails with %s" % (where, x, core.short_tb(err)))
    at = res[0] if o["op"] == "saddle" else res
    if o["op"] == "minimum":
        # line searches may leap into a deeper place
        R = rot(o["rot"])
        R = np.eye(3) if R is None else R
        fa, fx = (float(total(b.ref(), np.dot(R, i), 0)[0]) for i in (at, x))
        if not fa >= fx - 1e-9*(1+abs(fx)):
            return
    sim.check(np.abs(at-x).max() <= .02, "wrong-point", lambda: "%s starting "
              "close to %s ended at %s" % (where, x, at))


def execute(plan, sim):
    b = Bench(plan["els"], plan["scale"])
    if not b.els:
        return
    for k, o in enumerate(plan["ops"]):
        if o["op"] == "volt":
            i = o["i"] % len(b.els)
            j = 1 if o["k"] == "dc" else 2
            b.els[i][j] *= o["f"]
            setattr(b.objs[i], o["k"], b.els[i][j])
            sim.log("volt")
            continue
        where = "op %d %s" % (k, o["op"])
        f = o["fault"]
        it = cb = None
        trace = []
        if o["op"] == "saddle":
            def cb(*a):
                trace.append([np.array(i).ravel().copy() for i in a])
        if f and f[0] == "int":
            tot = count_lines(lambda: b.search(o))
            if tot:
                it = Interrupter(1 + int(f[1]*tot), f[2])
        if f and f[0] == "el":
            e = b.objs[f[1] % len(b.objs)]
            if f[5] and f[3] == "nan":
                e.arm({n: (f[3], f[4]) for n in range(f[2], f[2]+5000)}, sim)
            else:
                e.arm({f[2]: (f[3], f[4])}, sim)
        if f and f[0] == "cb":
            count = [0]

            def cb(*a):
                count[0] += 1
                if o["op"] == "saddle":
                    trace.append([np.array(i).ravel().copy() for i in a])
                if count[0] == f[1]+1:
                    sim.fault("callback-stops" if f[2] == "StopIteration"
                              else "callback-raises")
                    raise core.make_exc(f[2], "callback")
        before = sum(sim.faults.values())
        res = err = None
        try:
            with np.errstate(all="ignore"):
                if it:
                    res = it.run(lambda: b.search(o, cb))
                else:
                    res = b.search(o, cb)
        except BaseException as e:
            err = e
        for e in b.objs:
            e.disarm()
        if it and it.fired:
            sim.fault("interrupt")
        fired = sum(sim.faults.values()) - before
        out = type(err).__name__ if err else "ok"
        sim.log(o["op"], out, fired)
        sim.state(o["op"], o.get("method"), o["axis"], o["rot"] is None,
                  f[0] if f else None, out)
        raising = fired and (f[0] == "int" or f[0] == "el" and f[3] != "nan"
                             or f[0] == "cb" and f[2] != "StopIteration")
        if raising:
            sim.check(err is not None, "failure-swallowed",
                      lambda: "%s returned after a %s" % (where, f))
            sim.check(is_injected(err), "failure-replaced", lambda: "%s "
                      "raised %s after %s" % (where, core.short_tb(err), f))
        if err is None:
            sim.probe(o["op"] + "-found")
            judge(b.ref(), o, res, sim, where,
                  nan=fired and f[0] == "el" and f[3] == "nan")
            if o["op"] == "saddle":
                judge_saddle(b.ref(), o, trace, res, sim, where)
            for name, c in (("rotated", o["rot"] is not None),
                            ("axis-subset", len(o["axis"]) < 3),
                            ("started-far", o["far"]),
                            ("integer-start", all(isinstance(i, int)
                                                  for i in o["x"]))):
                if c:
                    sim.probe(name)
        elif isinstance(err, ValueError) and not fired:
            sim.probe("out-of-iterations")
        if not fired and not o["maxiter"]:
            progress(b, o, err, res, sim, where)
        if fired:
            # must not matter to the next one
            res, err = again(b, o)
            if err is None:
                judge(b.ref(), o, res, sim, where + " repeated")
        compare_fresh(plan, b, o, err, res, sim, where)


def compare_fresh(plan, b, o, err, res, sim, where):
    """If the search on fresh systems, from slightly different start points
    too, has a clear outcome, then this one should have had it."""
    out = []
    for d in (0., 1e-9, -1e-8):
        q = dict(o, x=[x*(1+d) if d else x for x in o["x"]])
        r, e = again(Bench(b.els, b.scale), q)
        if e is not None:
            out.append(type(e).__name__)
        else:
            out.append(np.array(r[0] if o["op"] == "saddle" else r))
    if all(isinstance(i, str) for i in out):
        if len(set(out)) == 1 and out[0] not in ("ValueError", "LinAlgError"):
            sim.check(err is not None, "history-dependence", lambda:
                      "%s succeeds, but fails with %s on fresh systems" % (
                          where, out[0]))
        return
    if any(isinstance(i, str) for i in out) or np.ptp(out, axis=0).max() \
            > 1e-4:
        return
    if err is not None:
        again(b, o)
        res, err = again(b, o)
    sim.check(err is None, "history-dependence", lambda: "%s fails with %s, "
              "but succeeds on fresh systems" % (where, core.short_tb(err)))
    sim.close(res[0] if o["op"] == "saddle" else res, out[0],
              "history-dependence", where, rtol=0, atol=1e-2)


def again(b, o):
    try:
        with np.errstate(all="ignore"):
            return b.search(o), None
    except Exception as e:
        return None, e
