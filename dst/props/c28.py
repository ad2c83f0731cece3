"""Plots show the present electrodes, voltages and potentials."""
import copy

import numpy as np

from .. import core, world
from ..core import Interrupter, count_lines, is_injected

ID = "C28"
RUNS = {"quick": 3000, "thorough": 60000}
BATCH = 20
RULE = ("A run is a random sequence of drawings (electrodes, voltages, "
        "contours in any plane, single electrodes) onto recording axes with "
        "voltages, shapes, names and the list of electrodes changed between "
        "them and temporary overrides around them; axes, colour maps and "
        "electrodes fail at any drawing call, interrupts at any executed "
        "line. What the axes received is compared with what the present "
        "system should look like. Non-trivial: a fault fired or something "
        "changed before a drawing.")
REAL = ["System.plot, plot_voltages, plot_contour", "Electrode.plot",
        "System potential methods, Grid", "matplotlib paths and patches"]
STUB = ["axes (recording, failing)", "colour maps", "electrode wrapper"]
STATE_MEASURE = "distinct (drawing, options, last change, fault, outcome)"
FAULTS = ["axes-raise", "colours-raise", "electrode-plot-raises",
          "electrode-raises-before", "electrode-raises-mid",
          "electrode-raises-after", "interrupt"]
PROBES = ["drawn", "contour", "filled", "default-grid", "inside-override",
          "after-change", "after-failure", "limit-raised", "own-voltages",
          "no-labels", "points"]
ASSUMPTIONS = ["nothing is said of what the axes received before a failure"]
EXC = ["Injected", "ValueError", "MemoryError", "KeyboardInterrupt",
       "InjectedBase", "RuntimeError", "TypeError"]
ASYNC = ["KeyboardInterrupt", "MemoryError", "InjectedBase"]
SET3 = [(141, 211, 199), (255, 255, 179), (190, 186, 218), (251, 128, 114),
        (128, 177, 211), (253, 180, 98), (179, 222, 105), (252, 205, 229),
        (217, 217, 217), (188, 128, 189), (204, 235, 197), (255, 237, 111)]


def gen_el(rng, i):
    return [world.gen_spec(rng, rng.choice(["P", "P", "Q", "H"]), 2),
            rng.choice(["e%d" % i, "e%d" % i, "", "rf", "e0"]),
            rng.choice([0., 1., -1., .5, world.rnd(rng, -3, 3)]),
            rng.choice([0., 0., 1., world.rnd(rng, -2, 2)])]


def gen(rng, idx):
    els = [gen_el(rng, i) for i in range(rng.choice([1, 2, 3, 3, 4, 14]))]
    n = len(els)
    ops = []
    for _ in range(rng.randint(1, 6)):
        r = rng.random()
        if r < .35:
            k = rng.choice(["dc", "rf", "geom", "name", "swap", "del",
                            "add", "coeff"])
            ops.append({"op": "edit", "k": k, "i": rng.randint(0, 20),
                        "j": rng.randint(0, 20), "v": rng.choice(
                            [0., 1., -2., world.rnd(rng, -3, 3)]),
                        "el": gen_el(rng, n)})
            continue
        o = {"op": rng.choice(["plot", "plotv", "plotv", "contour",
                               "contour", "single"]),
             "fault": None, "over": rng.choice([None]*4 + ["dc", "rf"]),
             "ov": [world.rnd(rng, -2, 2) for _ in range(20)]}
        if o["op"] == "plot":
            o["alpha"] = rng.choice([None, .5, 1.])
        if o["op"] in ("plot", "plotv"):
            o["label"] = rng.choice([None, None, "", "x"])
        if o["op"] == "plotv":
            o["u"] = rng.choice([None, None, [
                world.rnd(rng, -2, 2) for _ in range(20)], [0.]*20])
            o["um"] = rng.choice([None, None, 1., 2.5, 10])
            o["cmap"] = rng.choice([False, True, True])
        if o["op"] == "single":
            o["i"] = rng.randint(0, 20)
            o["label"] = rng.choice([None, None, "", "x"])
            o["color"] = rng.choice(["red", [.1, .2, .3]])
        if o["op"] == "contour":
            o["grid"] = rng.choice([None, 1, 1])
            o["center"] = [world.rnd(rng, -1, 1), world.rnd(rng, -1, 1),
                           world.rnd(rng, 1.5, 3)]
            o["step"] = [rng.choice([.2, .3, .1]) for _ in range(3)]
            o["shape"] = [rng.randint(1, 4) for _ in range(3)]
            o["typ"] = rng.choice([None, "tot", "dc", "rf"])
            o["slc"] = rng.choice([None, "x", "y", "z", "y", "z"])
            o["at"] = rng.choice([None, .5, 1, 1.7, .25])
            o["fill"] = rng.choice([None, True, False])
            o["dmax"] = rng.choice([None, None, 1, 2., -1, 30])
            o["num"] = rng.choice([None, 4, 7])
            o["kw"] = rng.choice([{}, {}, {"levels": [0., 1.]},
                                  {"vmin": -1.}, {"colors": "k"}])
        r = rng.random()
        if r < .15:
            o["fault"] = ["int", round(rng.random(), 4), rng.choice(ASYNC)]
        elif r < .3:
            o["fault"] = ["ax", rng.randint(1, 12), rng.choice(EXC)]
        elif r < .4:
            o["fault"] = ["el", rng.randint(0, 20), rng.randint(0, 8),
                          rng.choice(["before", "mid", "after"]),
                          rng.choice(EXC)]
        elif r < .45 and o.get("cmap"):
            o["fault"] = ["cm", rng.randint(1, 5), rng.choice(EXC)]
        ops.append(o)
    return {"els": els, "ops": ops}


SHRINK = ("ops", "els")


def shrink(plan):
    for k, o in enumerate(plan["ops"]):
        if o["op"] == "edit":
            continue
        for key in ("fault", "over", "label", "alpha", "u", "um", "typ",
                    "slc", "at", "fill", "dmax", "num", "grid"):
            if o.get(key) is not None:
                c = copy.deepcopy(plan)
                c["ops"][k][key] = None
                yield c
        if o.get("shape") and o["shape"] != [2, 2, 2]:
            c = copy.deepcopy(plan)
            c["ops"][k]["shape"] = [2, 2, 2]
            yield c


class Axes(object):
    """Records what is drawn; the n-th call fails."""

    def __init__(self, sim, n=0, exc=None):
        import matplotlib.transforms
        self.transData = matplotlib.transforms.Affine2D().scale(3.)
        self.log, self.sim, self.n, self.exc = [], sim, n, exc

    def _call(self, name, *a, **kw):
        self.n -= 1
        if self.n == 0:
            self.sim.fault("axes-raise")
            raise core.make_exc(self.exc, "axes")
        ret = object()
        self.log.append((name, a, kw, ret))
        return ret

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        return lambda *a, **kw: self._call(k, *a, **kw)


class Colours(object):
    def __init__(self, sim, n=0, exc=None):
        self.sim, self.n, self.exc = sim, n, exc

    @staticmethod
    def of(u):
        u = float(u)
        return (min(max(u, 0.), 1.), .25, min(max(1-u, 0.), 1.), 1.)

    def __call__(self, u):
        self.n -= 1
        if self.n == 0:
            self.sim.fault("colours-raise")
            raise core.make_exc(self.exc, "colours")
        return self.of(u)


class Bench(object):
    def __init__(self, els):
        self.C = world.classes()
        self.els = [list(e) for e in els]
        self.S = self.C.System([self.make(e) for e in self.els])
        self.S.rf_coeff = self.coeff = 1.

    def make(self, e):
        f = self.C.Faulty(world.make_inner(e[0], name=e[1]), name=e[1],
                          dc=e[2], rf=e[3])
        return f

    def edit(self, o):
        S, els = self.S, self.els
        n = len(els)
        k = o["k"]
        if k == "add":
            i = o["i"] % (n+1)
            els.insert(i, list(o["el"]))
            S.insert(i, self.make(els[i]))
            return
        if not n:
            return
        i, j = o["i"] % n, o["j"] % n
        if k in ("dc", "rf"):
            els[i][2 + (k == "rf")] = o["v"]
            setattr(S[i], k, o["v"])
        elif k == "geom":
            els[i][0] = o["el"][0]
            e = list(S)[i]
            old, new = e.inner, world.make_inner(o["el"][0], name=els[i][1])
            if type(old) is type(new) and hasattr(old, "paths"):
                # in place, as callers do it
                old.paths = new.paths
                old.cover_nmax = new.cover_nmax
                old.cover_height = new.cover_height
            else:
                e.inner = new
        elif k == "name":
            els[i][1] = o["el"][1]
            list(S)[i].name = list(S)[i].inner.name = o["el"][1]
        elif k == "swap":
            els[i], els[j] = els[j], els[i]
            S[i], S[j] = S[j], S[i]
        elif k == "del" and n > 1:
            del els[i]
            del S[i]
        elif k == "coeff":
            S.rf_coeff = self.coeff = abs(o["v"])

    def volts(self, o):
        dcs, rfs = [e[2] for e in self.els], [e[3] for e in self.els]
        n = len(dcs)
        if o["over"] == "dc":
            dcs = o["ov"][:n]
        if o["over"] == "rf":
            rfs = o["ov"][:n]
        return dcs, rfs

    def over(self, o):
        import contextlib
        if o["over"] is None:
            return contextlib.nullcontext()
        return self.S.with_voltages(**{o["over"] + "s": np.array(
            o["ov"][:len(self.S)])})

    def draw(self, o, ax, cmap):
        import contextlib
        import io
        S = self.S
        kw = {}
        if o.get("label") is not None:
            kw["label"] = o["label"]
        if o["op"] == "plot":
            if o["alpha"] is not None:
                kw["alpha"] = o["alpha"]
            return S.plot(ax, **kw)
        if o["op"] == "plotv":
            if o["u"] is not None:
                kw["u"] = np.array(o["u"][:len(S)])
            if o["um"] is not None:
                kw["um"] = o["um"]
            if o["cmap"]:
                kw["cmap"] = cmap
            return S.plot_voltages(ax, **kw)
        if o["op"] == "single":
            c = o["color"]
            return S[o["i"] % len(S)].plot(ax, color=tuple(c) if isinstance(
                c, list) else c, **kw)
        kw = dict(o["kw"])
        for a, b in (("typ", "typ"), ("slc", "slc"), ("at", "slc_at"),
                     ("fill", "fill"), ("dmax", "divide_max"),
                     ("num", "line_num")):
            if o[a] is not None:
                kw[b] = o[a]
        if o["grid"] is None:
            # taken from the first electrode then
            e = S[0]
            e.spacing = np.array(o["step"])
            e.origin = np.array(o["center"])
            e.data = [np.zeros(o["shape"] + [1])]
        else:
            from electrode import Grid
            kw["grid"] = Grid(center=np.array(o["center"]), step=np.array(
                o["step"]), shape=o["shape"])
        with contextlib.redirect_stdout(io.StringIO()):
            r = S.plot_contour(ax, **kw)
        if o["grid"] is None:
            # the next plot without a grid would be of another region
            self.sim.check(np.array_equal(e.origin, o["center"])
                           and np.array_equal(e.spacing, o["step"]),
                           "grid-changed", lambda: "the contour plot of the "
                           "grid at %s step %s changed it to %s %s" % (
                               o["center"], o["step"], e.origin, e.spacing))
        return r


def rgba(c):
    import matplotlib.colors
    return np.array(matplotlib.colors.to_rgba(c))


def judge_electrode(spec, name, label, color, alpha, log, sim, where, ax):
    """Consume the calls that draw one electrode."""
    text = name if label is None else label
    if spec["t"] == "H":
        # the simulator's own: a single text
        sim.check(bool(log) and log[0][0] == "text", "electrode-lost",
                  lambda: "%s does not draw %s" % (where, name))
        return log[1:]
    sim.check(len(log) > 0, "electrode-lost", lambda: "%s does not draw %s"
              % (where, spec))
    f, a, kw, _ = log[0]
    log = log[1:]
    if spec["t"] == "P":
        sim.check(f == "add_patch" and len(a) == 1, "wrong-drawing",
                  lambda: "%s calls %s for a polygon" % (where, f))
        v = a[0].get_path()
        want, codes = [], []
        for p in spec["paths"]:
            want += list(p) + [p[0]]
            codes += [1] + [2]*len(p)
        sim.check(len(v.vertices) == len(want) and bool(np.allclose(
            v.vertices, want, 1e-9, 1e-12)) and list(v.codes) == codes,
            "wrong-shape", lambda: "%s draws %s for the paths %s" % (
                where, v, spec["paths"]))
        centres = [np.mean(p, axis=0) for p in spec["paths"]]
        col = np.array(a[0].get_facecolor())
        al = a[0].get_alpha()
    else:
        sim.check(f == "add_collection" and len(a) == 1, "wrong-drawing",
                  lambda: "%s calls %s for points" % (where, f))
        c = a[0]
        pts = np.array(spec["points"], float)
        sim.check(bool(np.allclose(np.asarray(c.get_offsets()), pts, 1e-9,
                                   1e-12)),
                  "wrong-shape", lambda: "%s draws %s for the points %s" % (
                      where, c.get_offsets(), pts))
        sim.check(c.get_offset_transform() == ax.transData
                  and getattr(c, "_units", "xy") == "xy", "wrong-place",
                  lambda: "%s the points are not drawn in the axes' "
                  "coordinates: %s" % (where, c.get_offset_transform()))
        d = 2*np.sqrt(np.array(spec["areas"])/np.pi)
        sim.check(bool(np.allclose(2*c._widths, d) and np.allclose(
            2*c._heights, d)), "wrong-shape", lambda: "%s widths %s, the "
            "points are %s across" % (where, 2*c._widths, d))
        centres = [pts.mean(0)]
        col = np.array(c.get_facecolor())[0]
        al = None
        sim.probe("points")
    w = rgba(color)
    if al is not None:
        sim.check(al == alpha, "wrong-colour", lambda: "%s opacity %s" % (
            where, al))
    sim.check(bool(np.allclose(col[:3], w[:3], 0, 2e-3)), "wrong-colour",
              lambda: "%s colour %s, should be %s" % (where, col, w))
    if not text:
        sim.probe("no-labels")
        return log
    for c in centres:
        sim.check(len(log) > 0, "label-lost", lambda: "%s does not label %s"
                  % (where, name))
        f, a, kw, _ = log[0]
        log = log[1:]
        sim.check(f == "text" and len(a) >= 3 and a[2] == text,
                  "wrong-label", lambda: "%s: %s%s, the label is %s" % (
                      where, f, a, text))
        sim.check(bool(np.allclose(a[:2], c, 1e-9, 1e-12)), "wrong-label",
                  lambda: "%s puts %s at %s, not at %s" % (
                      where, text, a[:2], c))
    return log


def judge(b, o, ax, res, sim, where):
    log = list(ax.log)
    dcs, rfs = b.volts(o)
    sim.probe("drawn")
    if o["op"] == "single":
        i = o["i"] % len(b.els)
        log = judge_electrode(b.els[i][0], b.els[i][1], o["label"],
                              o["color"], None, log, sim, where, ax)
    elif o["op"] == "plot":
        for i, e in enumerate(b.els):
            log = judge_electrode(
                e[0], e[1], o["label"], tuple(np.array(
                    SET3[i % len(SET3)])/255.),
                .3 if o["alpha"] is None else o["alpha"], log, sim, where,
                ax)
    elif o["op"] == "plotv":
        u = np.array(dcs if o["u"] is None else o["u"][:len(dcs)], float)
        um = o["um"] or np.abs(u).max() or 1.
        if o["u"] is not None:
            sim.probe("own-voltages")
        import matplotlib.cm
        default = matplotlib.cm.RdBu_r
        for ui, e in zip(u, b.els):
            v = (ui/um + 1)/2
            c = Colours.of(v) if o["cmap"] else default(v)
            log = judge_electrode(e[0], e[1], o["label"], c, None, log, sim,
                                  where, ax)
    else:
        judge_contour(b, o, log, res, dcs, rfs, sim, where)
        log = []
    sim.check(not log, "extra-drawing", lambda: "%s also calls %s" % (
        where, [i[:2] for i in log]))


def judge_contour(b, o, log, res, dcs, rfs, sim, where):
    ref = world.Ref([e[0] for e in b.els], dcs, rfs, b.coeff)
    slc, at = o["slc"] or "x", 0. if o["at"] is None else o["at"]
    shape, step = np.array(o["shape"]), np.array(o["step"])
    orig = np.array(o["center"]) - (shape-1)/2.*step
    if o["grid"] is None:
        orig = np.array(o["center"])
        sim.probe("default-grid")
    k = "xyz".index(slc)
    ia, ib = [i for i in range(3) if i != k]
    ga, gb = (orig[i] + step[i]*np.arange(shape[i]) for i in (ia, ib))
    pts = np.zeros((len(gb), len(ga), 3))
    pts[..., ia], pts[..., ib], pts[..., k] = ga[None], gb[:, None], at
    pts = pts.reshape(-1, 3)
    p = np.zeros(len(pts))
    typ = o["typ"] or "tot"
    if typ != "rf":
        p = p + ref.electrical(pts, 0, "dc")[:, 0]
    if typ != "dc":
        p = p + ref.pseudo(pts, 0)
    p = p.reshape(len(gb), len(ga))
    if not np.all(np.isfinite(p)):
        return
    sc = 1e-7*(np.abs(p).max() + ref.scale(pts, 0)) + 1e-12
    name = "contourf" if o["fill"] else "contour"
    main = [i for i in log if i[0] in ("contour", "contourf")]
    sim.check(len(main) == 1 and main[0][0] == name
              and len(main[0][1]) == 3, "wrong-drawing", lambda:
              "%s calls %s" % (where, [i[0] for i in log]))
    f, a, kw, ret = main[0]
    sim.probe("contour")
    if o["fill"]:
        sim.probe("filled")
    for v, w in zip(a[:2], (ga, gb)):
        v = np.asarray(v)
        sim.check(v.shape == w.shape and bool(np.allclose(v, w, 1e-9, 1e-9)),
                  "wrong-grid", lambda: "%s grid %s, should be %s" % (
                      where, v, w))
    z = np.asarray(a[2])
    sim.check(z.shape == p.shape and np.abs(z-p).max() <= sc,
              "wrong-potential", lambda: "%s draws the potentials %s, they "
              "are %s" % (where, z.tolist(), p.tolist()))
    hi, lo = p.max(), p.min()
    sim.check(isinstance(res, tuple) and len(res) == 2 and res[0] is ret,
              "wrong-result", lambda: "%s returned %s" % (where, res))
    sim.check(abs(res[1][0]-hi) <= sc and abs(res[1][1]-lo) <= sc,
              "wrong-result", lambda: "%s reports %s, max and min are %s" % (
                  where, res[1], (hi, lo)))
    dm = 8 if o["dmax"] is None else o["dmax"]
    top = hi/dm
    if abs(top-lo) <= 3*sc:
        top = None    # rounding decides
    elif top <= lo:
        top = (hi+lo)/2
        sim.probe("limit-raised")
    if "levels" in o["kw"]:
        sim.check(list(kw["levels"]) == o["kw"]["levels"], "wrong-levels",
                  where)
    elif top is not None:
        w = np.linspace(lo, top, o["num"] or 50)
        l = np.asarray(kw.get("levels"))
        sim.check(l.shape == w.shape and np.abs(l-w).max() <= 3*sc,
                  "wrong-levels", lambda: "%s levels %s, should be %s" % (
                      where, l, w))
    if "colors" in o["kw"]:
        sim.check(kw.get("colors") == "k", "option-lost", where)
    if "vmin" in o["kw"]:
        sim.check(kw.get("vmin") == -1., "option-lost", where)
    elif top is not None:
        sim.check(abs(kw.get("vmin", np.nan)-top/2) <= 3*sc, "wrong-levels",
                  lambda: "%s vmin %s" % (where, kw.get("vmin")))
    for fn, i in (("set_xlabel", ia), ("set_ylabel", ib)):
        l = [c[1][0] for c in log if c[0] == fn]
        sim.check(len(l) >= 1 and l[-1][:1] == "xyz"[i], "wrong-label",
                  lambda: "%s %s %s" % (where, fn, l))


def one(b, o, sim, faulty=True):
    # (an override that is interrupted while it ends is C01's business)
    with b.over(o):
        return one1(b, o, sim, faulty)


def one1(b, o, sim, faulty):
    f = o["fault"] if faulty else None
    n = len(b.els)
    ax = Axes(sim)
    cm = Colours(sim)
    if f and f[0] == "ax":
        ax.n, ax.exc = f[1], f[2]
    if f and f[0] == "cm":
        cm.n, cm.exc = f[1], f[2]
    it = None
    if f and f[0] == "int":
        tot = count_lines(lambda: b.draw(o, Axes(sim), Colours(sim)))
        if tot:
            it = Interrupter(1 + int(f[1]*tot), f[2])
    if f and f[0] == "el":
        list(b.S)[f[1] % n].arm({f[2]: (f[3], f[4])}, sim)
    res = err = None
    try:
        res = it.run(lambda: b.draw(o, ax, cm)) if it else b.draw(o, ax, cm)
    except BaseException as e:
        err = e
    for e in b.S:
        e.disarm()
    if it and it.fired:
        sim.fault("interrupt")
    return ax, res, err


def execute(plan, sim):
    if not plan["els"]:
        return
    b = Bench(plan["els"])
    b.sim = sim
    last = None
    for k, o in enumerate(plan["ops"]):
        if o["op"] == "edit":
            b.edit(o)
            last = o["k"]
            continue
        where = "op %d %s" % (k, o["op"])
        if last:
            sim.nontrivial = True
            sim.probe("after-change")
        if o["over"]:
            sim.probe("inside-override")
        before = sum(sim.faults.values())
        ax, res, err = one(b, o, sim)
        fired = sum(sim.faults.values()) - before
        out = type(err).__name__ if err else "ok"
        sim.log(o["op"], out, len(ax.log))
        sim.state(o["op"], o.get("slc"), o.get("typ"), o["over"], last,
                  o["fault"][0] if o["fault"] else None, out)
        if fired:
            sim.check(err is not None, "failure-swallowed", lambda:
                      "%s went on after %s" % (where, o["fault"]))
            sim.check(is_injected(err), "failure-replaced", lambda: "%s "
                      "raised %s after %s" % (where, core.short_tb(err),
                                              o["fault"]))
            sim.probe("after-failure")
            ax, res, err = one(b, o, sim, faulty=False)
            where += " repeated"
        sim.check(err is None, "no-drawing", lambda: "%s raised %s" % (
            where, core.short_tb(err)))
        judge(b, o, ax, res, sim, where)
        sim.check([e.dc for e in b.S] == [e[2] for e in b.els]
                  and [e.rf for e in b.S] == [e[3] for e in b.els],
                  "voltages-changed", "%s changed voltages" % where)
        last = None
