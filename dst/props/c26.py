"""Grouped and converted electrodes stand for the present system."""
import copy

import numpy as np

from .. import core, world
from ..core import Interrupter, count_lines, is_injected

ID = "C26"
RUNS = {"quick": 3000, "thorough": 60000}
BATCH = 20
RULE = ("A run is a random sequence of groupings, mesh and point conversions "
        "of a system of polygons with voltages, shapes, and the list of "
        "electrodes changed between them and temporary overrides around "
        "them; voltages behind simulated hardware fail to be read and "
        "interrupts hit any executed line. Results are compared with an "
        "independent binning of the present voltages and with independently "
        "summed potentials. Non-trivial: a fault fired or something changed "
        "before.")
REAL = ["System.group", "MeshPixelElectrode.from_polygon_system",
        "PolygonPixelElectrode.to_points", "potential methods"]
STUB = ["electrodes with voltages behind simulated hardware"]
STATE_MEASURE = "distinct (operation, options, last change, fault, outcome)"
FAULTS = ["hardware-get", "interrupt"]
PROBES = ["grouped", "empty-bin", "unique-voltages", "on-the-edge",
          "own-voltages", "meshed", "to-points", "inside-override",
          "after-change", "after-failure", "original-changed-later", "under-a-cover",
          "patch-without-area"]
ASSUMPTIONS = []
EXC = ["Injected", "ValueError", "MemoryError", "KeyboardInterrupt",
       "InjectedBase", "RuntimeError"]
ASYNC = ["KeyboardInterrupt", "MemoryError", "InjectedBase"]
VS = [0., 1., 1., -1., .5, 2., -2.5, 1.+1e-9, 1.+2e-13, 1e-9, -1e-12]


def gen_cov(rng):
    return {"cover_nmax": rng.choice([0, 0, 1, 2]),
            "cover_height": rng.choice([5., 8., 50.])}


def gen_el(rng, cov):
    # clockwise paths count negative
    return [dict({"t": "P", "paths": [
        world.gen_square(rng)[::rng.choice([1, 1, 1, -1])]
        for _ in range(rng.randint(1, 3))]}, **cov),
        rng.choice(VS), rng.choice(VS)]


def gen(rng, idx):
    cov = gen_cov(rng)
    els = [gen_el(rng, cov) for _ in range(rng.randint(1, 6))]
    ops = []
    for _ in range(rng.randint(1, 6)):
        if rng.random() < .35:
            ops.append({"op": "edit", "k": rng.choice(
                ["dc", "rf", "geom", "swap", "del", "add", "cover"]),
                "i": rng.randint(0, 20), "j": rng.randint(0, 20),
                "v": rng.choice(VS), "el": gen_el(rng, cov)})
            if ops[-1]["k"] == "cover":
                ops[-1]["c"] = cov = gen_cov(rng)
            continue
        o = {"op": rng.choice(["group", "group", "group", "mesh", "points"]),
             "fault": None, "over": rng.choice([None]*4 + ["dc", "rf"]),
             "ov": [rng.choice(VS) for _ in range(20)],
             "i": rng.randint(0, 20),
             "at": [[world.rnd(rng, -1, 1), world.rnd(rng, -1, 1),
                     world.rnd(rng, .3, 2)] for _ in range(2)],
             "d": rng.randint(0, 2)}
        if o["op"] == "group":
            o["t"] = rng.choice([
                "default", None, [], sorted(rng.sample(
                    sorted(set(VS)), rng.randint(1, 4))),
                [world.rnd(rng, -2, 2)]])
            o["v"] = rng.choice([None, None, "rf", "list", "array"])
            o["u"] = [rng.choice(VS) for _ in range(20)]
        r = rng.random()
        if r < .2:
            o["fault"] = ["int", round(rng.random(), 4), rng.choice(ASYNC)]
        elif r < .4:
            o["fault"] = ["hw", rng.randint(0, 20),
                          rng.choice(["dc", "dc", "rf"]), rng.choice(EXC)]
        ops.append(o)
    return {"els": els, "ops": ops}


SHRINK = ("ops", "els")


def shrink(plan):
    for k, o in enumerate(plan["ops"]):
        if o["op"] == "edit":
            continue
        for key, v in (("fault", None), ("over", None), ("t", "default"),
                       ("v", None)):
            if key in o and o[key] != v:
                c = copy.deepcopy(plan)
                c["ops"][k][key] = v
                yield c
    for k, e in enumerate(plan["els"]):
        if len(e[0]["paths"]) > 1:
            c = copy.deepcopy(plan)
            c["els"][k][0]["paths"].pop()
            yield c


def hard_class():
    from electrode import PolygonPixelElectrode
    global _H
    try:
        return _H
    except NameError:
        pass

    class Hard(PolygonPixelElectrode):
        """Its voltages are read from (simulated) hardware."""
        armed = None
        sim = None

        def _get(self, k):
            a = self.armed
            if a and a[0] == k:
                self.armed = None
                self.sim.fault("hardware-get")
                raise core.make_exc(a[1], "hardware")
            return self.__dict__["_"+k]

        dc = property(lambda self: self._get("dc"),
                      lambda self, v: self.__dict__.update(_dc=v))
        rf = property(lambda self: self._get("rf"),
                      lambda self, v: self.__dict__.update(_rf=v))
    _H = Hard
    return _H


class Bench(object):
    def __init__(self, els, sim):
        self.sim = sim
        self.els = [copy.deepcopy(e) for e in els]
        C = world.classes()
        self.cov = {k: els[0][0][k] for k in ("cover_nmax", "cover_height")}
        for e in self.els:
            e[0].update(self.cov)
        self.S = C.System([self.make(e) for e in self.els])

    def make(self, e):
        h = hard_class()(paths=[np.array(p, float) for p in e[0]["paths"]],
                         dc=e[1], rf=e[2], name="e", **self.cov)
        h.sim = self.sim
        return h

    def edit(self, o):
        S, els = self.S, self.els
        n, k = len(els), o["k"]
        if k == "cover":
            # the cover moves: all electrodes are told
            self.cov = o["c"]
            for e, h in zip(els, S):
                e[0].update(self.cov)
                h.cover_nmax = self.cov["cover_nmax"]
                h.cover_height = self.cov["cover_height"]
            return
        if k == "add":
            i = o["i"] % (n+1)
            els.insert(i, copy.deepcopy(o["el"]))
            els[i][0].update(self.cov)
            S.insert(i, self.make(els[i]))
            return
        if not n:
            return
        i, j = o["i"] % n, o["j"] % n
        if k in ("dc", "rf"):
            els[i][1 + (k == "rf")] = o["v"]
            setattr(S[i], k, o["v"])
        elif k == "geom":
            els[i][0] = dict(copy.deepcopy(o["el"][0]), **self.cov)
            S[i].paths = [np.array(p, float) for p in els[i][0]["paths"]]
        elif k == "swap":
            els[i], els[j] = els[j], els[i]
            S[i], S[j] = S[j], S[i]
        elif k == "del" and n > 1:
            del els[i]
            del S[i]

    def volts(self, o):
        n = len(self.els)
        dcs, rfs = [e[1] for e in self.els], [e[2] for e in self.els]
        if o["over"] == "dc":
            dcs = o["ov"][:n]
        if o["over"] == "rf":
            rfs = o["ov"][:n]
        return dcs, rfs

    def over(self, o):
        import contextlib
        if o["over"] is None:
            return contextlib.nullcontext()
        return self.S.with_voltages(**{o["over"] + "s": np.array(
            o["ov"][:len(self.S)])})

    def call(self, o):
        from electrode.electrode import MeshPixelElectrode
        S = self.S
        if o["op"] == "mesh":
            return MeshPixelElectrode.from_polygon_system(S)
        if o["op"] == "points":
            return S[o["i"] % len(S)].to_points()
        kw = {}
        if o["t"] != "default":
            kw["thresholds"] = o["t"] if o["t"] is None else list(o["t"])
        n = len(S)
        if o["v"] == "rf":
            kw["voltages"] = S.rfs
        elif o["v"] == "list":
            kw["voltages"] = list(o["u"][:n])
        elif o["v"] == "array":
            kw["voltages"] = np.array(o["u"][:n])
        return S.group(**kw)


def expected(b, o):
    """[(members, dc, rf)] of the groups"""
    dcs, rfs = b.volts(o)
    n = len(dcs)
    v = {"rf": rfs, "list": o["u"][:n], "array": o["u"][:n],
         None: dcs}[o["v"]]
    t = [0] if o["t"] == "default" else o["t"]
    if t is None:
        t = sorted(set(v))
    t = [-np.inf] + list(t) + [np.inf]
    out = []
    for lo, hi in zip(t[:-1], t[1:]):
        m = [i for i in range(n) if lo <= v[i] < hi]
        out.append((m, sum(dcs[i] for i in m)/float(len(m) or 1),
                    sum(rfs[i] for i in m)/float(len(m) or 1)))
    return out, t, v


def shoelace(p):
    p = np.array(p, float)
    q = np.roll(p, -1, 0)
    c = p[:, 0]*q[:, 1] - q[:, 0]*p[:, 1]
    a = c.sum()/2
    return a, ((p + q)*c[:, None]).sum(0)/(6*a)


def judge(b, o, res, sim, where):
    dcs, rfs = b.volts(o)
    at, d = np.array(o["at"]), o["d"]
    if o["op"] == "points":
        e = b.els[o["i"] % len(b.els)]
        sim.probe("to-points")
        want = [shoelace(p) for p in e[0]["paths"]]
        sim.check(np.shape(res.points) == (len(want), 2)
                  and np.allclose(res.points, [c for a, c in want], 1e-7,
                                  1e-9)
                  and np.allclose(res.areas, [a for a, c in want], 1e-7,
                                  1e-9),
                  "wrong-points", lambda: "%s gives %s areas %s, they are %s"
                  % (where, res.points, res.areas, want))
        i = o["i"] % len(b.els)
        if o["d"] == 2:
            # patches without area have no orientation
            ps = [list(p) for p in e[0]["paths"]]
            k = o["i"] % (len(ps)+1)
            ps.insert(k, [[1, 0], [1, 2], [1, 1]])
            saved = b.S[i].paths
            b.S[i].paths = [np.array(p, float) for p in ps]
            got = list(b.S[i].orientations())
            b.S[i].paths = saved
            w = [np.sign(a) for a, c in want]
            w.insert(k, 0)
            sim.probe("patch-without-area")
            sim.check(got == w, "wrong-orientation", lambda: "%s "
                      "orientations %s, should be %s" % (where, got, w))
        sim.check(res.name == "e", "name-lost", where)
        for what, e1, w in (("polygons", b.S[i], [
                np.sign(a) for a, c in want]), ("points", res, [1]*len(
                    want))):
            got = np.asarray(e1.orientations())
            sim.check(got.shape == (len(want),) and list(got) == w,
                      "wrong-orientation", lambda: "%s the %s' orientations "
                      "are %s, should be %s" % (where, what, got, w))
        sim.check(res.dc == dcs[i] and res.rf == rfs[i],
                  "wrong-voltage", lambda: "%s dc %s rf %s, should be %s %s" %
                  (where, res.dc, res.rf, dcs[i], rfs[i]))
        w = dict(t="Q", points=[list(c) for a, c in want],
                 areas=[a for a, c in want], **b.cov)
        got, u = np.array(res.potential(at, d)), world.unit(w, at, d)
        sim.check(got.shape == u.shape and np.abs(got-u).max()
                  <= 1e-7*np.abs(u).max() + 1e-12, "wrong-potential",
                  lambda: "%s has the potential %s, should be %s" % (
                      where, got, u))
        return None
    if b.cov["cover_nmax"]:
        sim.probe("under-a-cover")
    units = [world.unit(e[0], at, d) for e in b.els]
    if o["op"] == "mesh":
        sim.probe("meshed")
        want = sum(v*u for v, u in zip(dcs, units))
        sc = sum(abs(v)*np.abs(u).max() for v, u in zip(dcs, units))

        def now():
            return np.array(res.potential(at, d, res.dc))
        got = now()
        sim.check(got.shape == want.shape and np.abs(got-want).max()
                  <= 1e-7*sc + 1e-12, "wrong-potential", lambda: "%s has the "
                  "potential %s, the electrodes have %s" % (where, got, want))
        return now, got
    groups, t, v = expected(b, o)
    sim.probe("grouped")
    if o["t"] is None:
        sim.probe("unique-voltages")
    if o["v"]:
        sim.probe("own-voltages")
    if set(t) & set(v):
        sim.probe("on-the-edge")
    sim.check(len(res) == len(groups), "wrong-bins", lambda: "%s gives %d "
              "groups for the edges %s" % (where, len(res), t))
    want, sc = 0., 0.
    for g, (m, dc, rf) in zip(list(res), groups):
        paths = [p for i in m for p in b.els[i][0]["paths"]]
        sim.check(len(g.paths) == len(paths) and all(
            np.array_equal(a, c) for a, c in zip(g.paths, paths)),
            "wrong-bin", lambda: "%s voltages %s, edges %s: the group of the "
            "electrodes %s has the paths %s" % (where, v, t, m, g.paths))
        if not m:
            sim.probe("empty-bin")
        sim.check(abs(g.dc-dc) < 1e-12 and abs(g.rf-rf) < 1e-12,
                  "wrong-voltage", lambda: "%s group of the electrodes %s "
                  "has the voltages %s, %s, their mean is %s, %s" % (
                      where, m, g.dc, g.rf, dc, rf))
        for i in m:
            want = want + dc*units[i]
            sc += abs(dc)*np.abs(units[i]).max()

    def now():
        return np.array(res.electrical_potential(at, d, "dc"))
    got = now()
    want = want + np.zeros_like(got)
    sim.check(got.shape == want.shape and bool(np.all(np.abs(
        got-want) <= 1e-7*sc + 1e-12)), "wrong-potential", lambda: "%s groups "
        "have the potential %s, should be %s" % (where, got, want))
    return now, got


def execute(plan, sim):
    if not plan["els"]:
        return
    b = Bench(plan["els"], sim)
    last = None
    held = []
    for k, o in enumerate(plan["ops"]):
        if o["op"] == "edit":
            b.edit(o)
            last = o["k"]
            continue
        where = "op %d %s" % (k, o["op"])
        if last:
            sim.nontrivial = True
            sim.probe("after-change")
        if o["over"]:
            sim.probe("inside-override")
        f = o["fault"]
        with b.over(o), np.errstate(all="ignore"):
            res = err = it = None
            if f and f[0] == "int":
                tot = count_lines(lambda: b.call(o))
                if tot:
                    it = Interrupter(1 + int(f[1]*tot), f[2])
            if f and f[0] == "hw":
                b.S[f[1] % len(b.S)].armed = f[2], f[3]
            before = sum(sim.faults.values())
            try:
                res = it.run(lambda: b.call(o)) if it else b.call(o)
            except BaseException as e:
                err = e
            for e in b.S:
                e.armed = None
            if it and it.fired:
                sim.fault("interrupt")
            fired = sum(sim.faults.values()) - before
            out = type(err).__name__ if err else "ok"
            sim.log(o["op"], out)
            sim.state(o["op"], o.get("v"), str(o.get("t")), o["over"], last,
                      f[0] if f else None, out)
            if fired:
                sim.check(err is not None, "failure-swallowed", lambda:
                          "%s returned after %s" % (where, f))
                sim.check(is_injected(err), "failure-replaced", lambda:
                          "%s raised %s after %s" % (
                              where, core.short_tb(err), f))
                sim.probe("after-failure")
                res = err = None
                try:
                    res = b.call(o)
                except Exception as e:
                    err = e
                where += " repeated"
            sim.check(err is None, "no-answer", lambda: "%s raised %s" % (
                where, core.short_tb(err)))
            h = judge(b, o, res, sim, where)
        if h is not None:
            held.append((where,) + h)
        sim.check([e.dc for e in b.S] == [e[1] for e in b.els]
                  and [e.rf for e in b.S] == [e[2] for e in b.els]
                  and all(np.array_equal(p, q) for e, s in zip(b.S, b.els)
                          for p, q in zip(e.paths, s[0]["paths"])),
                  "system-changed", "%s changed the system" % where)
        last = None
    # results stand on their own
    for e in b.S:
        e.dc = e.rf = 7.
        e.paths = [p + 1. for p in e.paths]
    for where, now, got in held:
        sim.probe("original-changed-later")
        sim.check(bool(np.array_equal(now(), got)), "not-independent",
                  "%s changes with the original's voltages" % where)
