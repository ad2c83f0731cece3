"""Voltage adjustment moves are transactions."""
import contextlib
import copy
import io

import numpy as np

from .. import core, world
from ..core import is_injected

ID = "C12"
RUNS = {"quick": 4000, "thorough": 80000}
BATCH = 10
RULE = ("A run is a random sequence of set-up, propose, try, accept (a "
        "proposal or own changes) and reject calls on a trap, with electrodes "
        "that fail or interrupt at chosen evaluations, voltage sources that "
        "fail on a chosen read or write, unsolvable and misnamed electrode "
        "groups and direct voltage writes in between. Non-trivial: a fault "
        "fired or a move was rejected.")
REAL = ["Adjust", "System.minimum, modes, potential", "scipy.optimize"]
STUB = ["analytic harmonic electrodes behind simulated voltage sources",
        "failing electrode wrapper"]
STATE_MEASURE = ("distinct (op, method, pending, trial applied, accepted "
                 "moves, fault, outcome)")
FAULTS = ["electrode-raises-before", "electrode-raises-mid",
          "electrode-raises-after", "electrode-nan", "voltage-read-fails",
          "voltage-write-fails", "voltage-write-fails-after",
          "unknown-electrode", "unsolvable"]
PROBES = ["accepted-proposal", "accepted-own", "rejected", "rejected-nothing",
          "accept-without-proposal", "propose-after-propose", "trial",
          "failed-propose", "failed-accept", "outside-write",
          "position-method", "same-scale", "reinitialised", "regrouped"]
ASSUMPTIONS = ["one voltage source failure at a time (the write that puts "
               "the voltage back works)",
               "voltages of electrodes outside the configured groups are "
               "only changed through the adjustment"]
EXC = ["Injected", "ValueError", "MemoryError", "KeyboardInterrupt",
       "InjectedBase", "OSError", "RuntimeError"]


def through(err, name):
    """raised below a call of that name"""
    tb = err.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_name == name:
            return True
        tb = tb.tb_next
    return False


def gen(rng, idx):
    k = rng.choice([.2, .4, 1.])
    a = rng.choice([.8, 1., 1.5])
    c = rng.choice([0, .1, -.1])
    els = [[{"t": "H", "f": [[2, 0, a]], "g": []}, 0., 1.],
           [{"t": "H", "f": [[0, 2, k], [2, 0, -k/2]] + (
               [[0, 3, c]] if c else []), "g": []}, 1., 0.]]
    for f, g in (([[1, 0, 1]], []), ([[0, 1, 1]], []), ([], [[0, 0, 1]])):
        f = [[i, j, world.rnd(rng, .4, 1.)] for i, j, _ in f]
        g = [[i, j, world.rnd(rng, .4, 1.)] for i, j, _ in g]
        for _ in range(rng.randint(0, 2)):
            f = f + [[rng.randint(0, 2), rng.randint(0, 2),
                      world.rnd(rng, -.1, .1)]]
        for _ in range(rng.choice([1, 1, 2])):
            els.append([{"t": "H", "f": copy.deepcopy(f),
                         "g": copy.deepcopy(g)},
                        rng.choice([0., .02, -.01]), 0.])
    names = list(range(2, len(els)))
    rng.shuffle(names)
    # group electrodes of the same kind, so that it can be solved
    kinds = {}
    for i in names:
        s = els[i][0]
        key = ("z" if s["g"] else "x" if [1, 0] == s["f"][0][:2] else "y")
        kinds.setdefault(key, []).append(i)
    config = list(kinds.values())
    rng.shuffle(config)
    ops = [{"op": "init", "xm": rng.random() < .4,
            "order": rng.choice([None, None, None, [0, 1, 2], [2, 0, 1]])}]
    for _ in range(rng.randint(2, 9)):
        r = rng.random()
        o = {"fault": gen_fault(rng) if rng.random() < .35 else None}
        if r < .38:
            o.update(op="propose", axis=rng.randint(0, 2),
                     dis=rng.choice([5e-6, -4e-6, 1e-6, 2e-5]),
                     same=rng.random() < .2,
                     l=rng.choice([None, None, 1e-4, 3e-4]),
                     method=rng.choice(["force", "force", "position",
                                        "typo"] if rng.random() < .3 else
                                       ["force", "position"]))
        elif r < .48:
            o.update(op="trial", dv=[world.rnd(rng, -.05, .05)
                                     for _ in config])
        elif r < .7:
            o.update(op="accept", dv=None)
        elif r < .8:
            o.update(op="accept", dv=[world.rnd(rng, -.05, .05)
                                      for _ in config])
        elif r < .88:
            o.update(op="reject")
        elif r < .91:
            o.update(op="outside", i=rng.randrange(8),
                     v=world.rnd(rng, -.1, .1))
        elif r < .955:
            o.update(op="regroup", g=rng.sample(range(len(config)),
                                                rng.randint(1, len(config))))
        elif r < .975:
            o.update(op="config", what=rng.choice(["misnamed", "double",
                                                   "good", "good"]))
        else:
            o.update(op="init", xm=rng.random() < .4, order=rng.choice(
                [None, [0, 1, 2], [2, 0, 1], [1, 2, 0]]))
        ops.append(o)
    return {"els": els, "config": config, "ops": ops}


def gen_fault(rng):
    if rng.random() < .6:
        return ["el", rng.randint(0, 7),
                rng.choice([0, 1, 2, rng.randint(0, 20),
                            rng.randint(0, 150)]),
                rng.choice(["before", "mid", "after", "nan"]),
                rng.choice(EXC)]
    return ["volt", rng.randint(0, 7),
            rng.choice(["set", "set", "set", "setafter", "get"]),
            rng.choice(EXC)]


SHRINK = ("ops",)


def shrink(plan):
    for k, o in enumerate(plan["ops"]):
        if o.get("fault"):
            c = copy.deepcopy(plan)
            c["ops"][k]["fault"] = None
            yield c


def execute(plan, sim):
    import electrode
    from electrode.adjust import Adjust
    C = world.classes()
    if not plan["ops"] or plan["ops"][0]["op"] != "init":
        return
    faulty = [C.Faulty(world.make_inner(s, name="e%d" % i), name="e%d" % i)
              for i, (s, _, _) in enumerate(plan["els"])]
    objs = [C.Touchy(f, name=f.name, dc=e[1], rf=e[2])
            for f, e in zip(faulty, plan["els"])]
    S = C.System(objs)
    S.rf_coeff = 1.
    specs = [e[0] for e in plan["els"]]
    rfs = [e[2] for e in plan["els"]]
    good = [["e%d" % i for i in g] for g in plan["config"]]
    allg = good
    with contextlib.redirect_stdout(io.StringIO()):
        A = Adjust(S)
    hist = [{e.name: e._dc for e in objs}]     # model of the histories
    xms, curves = [], []
    inited = False
    pending = None
    trial = False

    def dcs():
        return [e._dc for e in objs]

    def last(extra=None):
        v = dict(hist[-1])
        for g, d in zip(good, extra if extra is not None else []):
            for n in g:
                v[n] = v[n] + d
        return v

    def check_hist(where):
        sim.check(sorted(A.volts) == sorted(hist[0]), "histories",
                  lambda: "%s: recorded electrodes %s" % (where,
                                                          sorted(A.volts)))
        for n in hist[0]:
            sim.close(A.volts[n], [h[n] for h in hist], "histories",
                      "%s: recorded voltages of %s" % (where, n), rtol=1e-12)
        if inited:
            sim.close(np.array(A.xms), np.array(xms), "histories",
                      where + ": recorded positions", rtol=0, atol=0)
            sim.close(np.array(A.curves), np.array(curves), "histories",
                      where + ": recorded curvatures", rtol=0, atol=0)
        for i, e in enumerate(objs):
            sim.check(e._rf == rfs[i], "rf-changed", where)

    def check_volts(want, where, what):
        for e in objs:
            sim.close(e._dc, want[e.name], "voltages", "%s: voltage of %s, "
                      "%s" % (where, e.name, what), rtol=1e-12, atol=1e-13)

    def judge(x, start, curve, volts, where):
        """belongs to these voltages?"""
        r = world.Ref(specs, [volts["e%d" % i] for i in range(len(specs))],
                      rfs, 1.)
        H = world.expand(r.electrical(x, 2, "dc"))[0] + r.pseudo(x, 2)[0]
        ev = np.linalg.eigvalsh(H)
        sim.close(np.sort(np.real(curve)), ev, "foreign-curvature",
                  where + ": curvatures", rtol=1e-7, atol=1e-9)
        f, f0 = (float(r.electrical(y, 0, "dc")[0, 0] + r.pseudo(y, 0)[0])
                 for y in (x, start))
        sim.check(f <= f0 + 1e-12, "foreign-position", lambda: "%s: %s has a "
                  "higher potential than the start of the search %s with the "
                  "recorded voltages" % (where, x, start))

    def forces(x, groups=None):
        """gradients (3, n) per volt of the groups"""
        x = np.array(x, float)
        return np.array([sum(world.unit(specs[int(n[1:])], x, 1)[0]
                             for n in g) for g in groups or good]).T

    def solvable(x):
        F = forces(x)
        return F.shape == (3, 3) and np.linalg.cond(F) < 1e6

    def hessian(x, volts):
        r = world.Ref(specs, [volts["e%d" % i] for i in range(len(specs))],
                      rfs, 1.)
        return world.expand(r.electrical(x, 2, "dc"))[0] + r.pseudo(x, 2)[0]

    def set_up(o, res, where):
        B = np.array([v for _, v in res[1]])
        H = hessian(np.array(res[0]), was)
        sim.close(np.dot(B, B.T), np.eye(3), "wrong-axes", where +
                  ": axes", atol=1e-9)
        sim.close(np.array([np.dot(v, np.dot(H, v)) for v in B]),
                  np.real(A.curves[0]), "wrong-axes", where +
                  ": curvatures along the axes", rtol=1e-7, atol=1e-9)
        if o["order"] is None:
            sim.check(B[0, 0] >= B[1, 0] >= B[2, 0], "wrong-axes", lambda:
                      "%s: axes %s not by their x components" % (where, B))
        else:
            V = np.array(S.modes(res[0])[1])
            sim.close(B, V[:, o["order"]].T, "wrong-axes", where +
                      ": axes in the given order", atol=1e-9)

    def proposed(o, dv, where):
        """the voltages do what was asked for"""
        l = 200e-6 if o["l"] is None else o["l"]
        ax = basis[o["axis"]]
        if o["method"] == "force":
            x = xms[-1]
            # the slope that moves a harmonic minimum by the distance
            want = -np.real(curves[0 if o["same"] else -1][o["axis"]]
                            )*o["dis"]/l*ax
        else:
            x = xms[-1] + o["dis"]/l*ax
            r = world.Ref(specs, [hist[-1]["e%d" % i] for i in range(
                len(specs))], rfs, 1.)
            want = -(r.electrical(x, 1, "dc") + r.pseudo(x, 1))[0]
        F = forces(x)
        sim.close(np.dot(F, dv), want, "wrong-move", where + ": force of the "
                  "proposed voltages", rtol=1e-7, atol=1e-9*(
                      1 + np.abs(F).max()*np.abs(dv).max()))

    def reported(r, where):
        (x, off), df, vc = r
        sim.close(off, x - xms[-1], "wrong-report", where + ": displacement",
                  atol=1e-12)
        with np.errstate(all="ignore"):
            H = hessian(np.array(x), dict((e.name, e._dc) for e in objs))
            ev = np.linalg.eigvalsh(H)
            f0 = np.sqrt(np.asarray(curves[0], complex))
            f = np.sort(np.real((np.asarray(df) + f0)**2))
            sim.close(f[np.isfinite(f)], ev[np.isfinite(f)] if np.all(
                np.isfinite(f)) else f[np.isfinite(f)], "wrong-report",
                where + ": frequencies", rtol=1e-6, atol=1e-8)
        V = np.array(vc) + np.array(basis)
        sim.close(np.dot(V, V.T), np.eye(3), "wrong-report", where +
                  ": axes", atol=1e-9)

    basis = []
    base = 0        # moves before the last set-up
    for k, o in enumerate(plan["ops"]):
        op = o["op"]
        where = "op %d %s" % (k, op)
        if op == "outside":
            g = [n for g in good for n in g]
            objs[int(g[o["i"] % len(g)][1:])]._dc += o["v"]
            sim.probe("outside-write")
            trial = True
            continue
        if op == "regroup":
            if pending is None and not trial:
                good = [allg[i] for i in o["g"]]
                A.E_config = [list(g) for g in good]
                sim.probe("regrouped")
            continue
        if op == "config":
            if o["what"] == "misnamed":
                A.E_config = [list(g) for g in good[:-1]] + [
                    ["nobody"] + good[-1]]
                # (reported by every use; nothing else is expected of it)
                sim.probe("misnamed")
            elif o["what"] == "double":
                A.E_config = [list(good[0])]*len(good)
            else:
                A.E_config = [list(g) for g in good]
            # only used for one failing proposal
            if o["what"] == "good":
                continue
            if not trial:
                err = None
                try:
                    with contextlib.redirect_stdout(io.StringIO()), \
                            np.errstate(all="ignore"):
                        A.propose_move(dis=5e-6)
                except Exception as e:
                    err = e
                sim.fault("unknown-electrode" if o["what"] == "misnamed"
                          else "unsolvable")
                if err is None:
                    # rounding may hide a singular problem
                    A.E_config = [list(g) for g in good]
                    return
                check_volts(last(), where, "after a failed proposal")
                check_hist(where)
            A.E_config = [list(g) for g in good]
            continue
        f = o["fault"] if k else None
        if f and f[0] == "el":
            faulty[f[1] % len(faulty)].arm({f[2]: (f[3], f[4])}, sim)
        if f and f[0] == "volt":
            e = objs[f[1] % len(objs)]
            e.fired = 0
            e.armed = (f[2], "dc", f[3])
        before = sum(sim.faults.values())
        res = err = None
        was = dict((e.name, e._dc) for e in objs)
        try:
            with contextlib.redirect_stdout(io.StringIO()), \
                    np.errstate(all="ignore"):
                if op == "init":
                    kw = {} if o["order"] is None else {
                        "axis_order": list(o["order"])}
                    res = A.set_move_init(
                        [list(g) for g in good],
                        xm=(.001, 0., 0.) if o["xm"] else None, **kw)
                elif op == "propose":
                    kw = {} if o["l"] is None else {"l": o["l"]}
                    res = A.propose_move(axis=o["axis"], dis=o["dis"],
                                         same_scale=o["same"],
                                         method=o["method"], **kw)
                elif op == "trial":
                    res = A.xm_freq_change(o["dv"][:len(good)])
                elif op == "accept":
                    res = A.next_step(o["dv"] and o["dv"][:len(good)])
                else:
                    res = A.next_step(accept=False)
        except BaseException as e:
            err = e
        for e in faulty:
            e.disarm()
        for e in objs:
            e.armed = None
        if f and f[0] == "volt" and objs[f[1] % len(objs)].fired:
            sim.fault({"set": "voltage-write-fails", "get":
                       "voltage-read-fails", "setafter":
                       "voltage-write-fails-after"}[f[2]])
        fired = sum(sim.faults.values()) - before
        out = type(err).__name__ if err else "ok"
        sim.log(op, out, len(hist))
        sim.state(op, o.get("method"), pending is not None, trial,
                  len(hist), f and f[0], out)
        raising = fired and f[3 if f[0] == "el" else 2] != "nan"
        if raising:
            sim.check(err is not None, "failure-swallowed", lambda: "%s "
                      "succeeded after %s" % (where, f))
            sim.check(is_injected(err), "failure-replaced", lambda: "%s "
                      "raised %s after %s" % (where, core.short_tb(err), f))
        if err is not None and not fired and o.get("method") != "typo":
            sim.check(not isinstance(err, (AttributeError, NameError,
                                           LookupError, TypeError)),
                      "unexpected-failure", lambda: "%s raised %s" % (
                          where, core.short_tb(err)))
        if err is not None and not fired and o.get("method") != "typo" and (
                op in ("init", "trial") or op == "propose" and
                solvable(xms[-1])) and not through(err, "minimum"):
            sim.check(False, "unexpected-failure", lambda: "%s raised %s" % (
                where, core.short_tb(err)))
        if op == "init":
            if err is not None:
                # set-up is not a move: start over
                return
            inited = True
            if not fired:
                set_up(o, res, where)
            basis[:] = [np.array(v) for _, v in res[1]]
            xms, curves = [np.array(A.xms[0])], [np.array(A.curves[0])]
            sim.check(len(A.xms) == len(A.curves) == 1, "histories",
                      where + ": initial entries")
            if k:
                sim.probe("reinitialised")
                # starts over from the last accepted voltages; the voltage
                # history goes on
                if trial or pending is not None:
                    return
                base = len(hist)-1
            check_hist(where)
            continue
        if op == "reject":
            if err is None:
                sim.probe("rejected" if trial else "rejected-nothing")
                sim.nontrivial = sim.nontrivial or trial
                check_volts(last(), where, "after a rejection")
                pending, trial = None, False
            else:
                # the voltages could not be put back
                sim.check(bool(fired), "unexpected-failure",
                          lambda: "%s raised %s" % (where,
                                                    core.short_tb(err)))
                trial = True
            check_hist(where)
            continue
        if op in ("propose", "trial"):
            if err is None:
                sim.probe("trial")
                if op == "propose":
                    if pending is not None:
                        sim.probe("propose-after-propose")
                    if o["same"]:
                        sim.probe("same-scale")
                    if o["method"] == "position":
                        sim.probe("position-method")
                    pending = (list(res[0]), np.array(res[1][0]))
                    dv = pending[0]
                    if not fired:
                        proposed(o, dv, where)
                        reported(res[1:], where)
                else:
                    dv = o["dv"]
                    if not fired:
                        reported([res[:2], res[3], res[4]], where)
                trial = True
                check_volts(last(dv), where, "while it is tried")
            else:
                if op == "propose":
                    sim.probe("failed-propose")
                if op == "propose" and trial and f and f[0] == "volt":
                    # failed to leave the trial before it
                    pass
                else:
                    check_volts(last(), where, "after a failed move")
                    trial = False
            check_hist(where)
            continue
        # accept
        if o["dv"] is None and pending is None:
            sim.probe("accept-without-proposal")
            sim.check(isinstance(err, ValueError), "accepted-nothing",
                      lambda: "%s gave %s" % (where, err or res))
            check_volts(was, where, "after a refused accept")
            check_hist(where)
            continue
        if err is not None:
            sim.probe("failed-accept")
            check_volts(last(), where, "after a failed move")
            check_hist(where)
            trial = False
            continue
        dv = pending[0] if o["dv"] is None else o["dv"]
        sim.probe("accepted-proposal" if o["dv"] is None else
                  "accepted-own")
        hist.append(last(dv))
        sim.check(len(A.xms) == len(A.curves) == len(hist) - base,
                  "histories", lambda: "%s: %d positions, %d curvatures for "
                  "%d moves" % (where, len(A.xms), len(A.curves),
                                len(hist)-1-base))
        xms.append(np.array(A.xms[-1]))
        curves.append(np.array(A.curves[-1]))
        check_hist(where)
        check_volts(last(), where, "after an accepted move")
        if o["dv"] is None:
            sim.close(xms[-1], pending[1], "foreign-position", where +
                      ": recorded and proposed position", rtol=0, atol=0)
        if not fired:
            judge(xms[-1], xms[-2]+.01, curves[-1], hist[-1], where)
        pending, trial = None, False
