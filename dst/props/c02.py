"""Reported potentials follow the present electrodes and voltages."""
import copy
import pickle

import numpy as np

from .. import core, world
from ..core import HarnessError, Interrupter, count_lines, is_injected

ID = "C02"
RUNS = {"quick": 5000, "thorough": 90000}
BATCH = 20
RULE = ("A run is a random history of evaluations, voltage, list, geometry "
        "and scale edits, copies, failing electrodes and asynchronous "
        "interrupts on one or two systems sharing electrodes; every "
        "evaluation is compared with an independent superposition. "
        "Non-trivial: at least one failure or interrupt fired inside an "
        "evaluation.")
REAL = ["System potential methods", "all electrode kinds and their compiled "
        "potentials", "expand_tensor"]
STUB = ["analytic harmonic electrode (exact oracle)", "failing electrode "
        "wrapper"]
STATE_MEASURE = ("distinct (previous operation, evaluation kind, order, "
                 "fault) tuples")
FAULTS = ["electrode-raises-before", "electrode-raises-after",
          "electrode-raises-mid", "electrode-nan", "interrupt"]
PROBES = ["all-zero-voltages", "duplicate-electrode", "shared-electrode",
          "pseudo", "order-4-pseudo", "geometry-edit", "empty-system",
          "result-overwritten", "fault-not-reached", "mathieu-exponents",
          "name-lookup", "curvature-modes"]
ASSUMPTIONS = ["the unit contribution of a non-analytic electrode is what a "
               "freshly built electrode of the same geometry reports"]

EXC = ["Injected", "ValueError", "MemoryError", "KeyboardInterrupt",
       "FloatingPointError", "InjectedBase", "TypeError", "AttributeError",
       "OSError"]
ASYNC = ["KeyboardInterrupt", "MemoryError", "InjectedBase"]
EDITS = ["volt", "volts", "append", "insert", "pop", "swap", "reverse",
         "replace", "dup", "rename", "geom", "clear", "slice", "zero",
         "tweak", "tweak", "twin"]


DERIVED = ["modes", "mathieu", "lookup"]


def gen_eval(rng, big):
    what = rng.choice(["elec", "elec", "elec", "indiv", "time", "pseudo",
                       "pseudo", "pot", "pot", "single", rng.choice(DERIVED)])
    dmax = {"elec": 5, "indiv": 5, "time": 5, "single": 5,
            "pseudo": 4, "pot": 4}.get(what, 0)
    d = rng.randint(0, dmax if big else 2)
    return {"what": what, "d": d, "x": world.gen_points(rng),
            "typ": rng.choice(["dc", "rf"] if what != "pot" else
                              ["tot", "dc", "rf", "default"]),
            "expand": rng.random() < .5,
            "t": rng.choice([0., 1., -2.5, 1e3, round(rng.uniform(-9, 9), 3)]),
            "i": rng.randint(0, 7),
            "form": rng.choice(["array", "array", "list", "one", "strided",
                                "fortran", "float32"])}


def gen(rng, idx):
    kinds = rng.choice(["H", "HC", "HPQ", "HPQCMG", "PQCM", "HG"])
    els = [[world.gen_spec(rng, kinds, 5), gen_volt(rng),
            gen_volt(rng)] for _ in range(rng.choice([0, 1, 2, 2, 3, 4,
                                                           5]))]
    big = rng.random() < .6
    edits = rng.sample(EDITS, rng.randint(3, len(EDITS)))
    pf = rng.choice([0, .2, .4])
    ops = []
    for _ in range(rng.randint(3, 14)):
        r = rng.random()
        if r < .5:
            ev = gen_eval(rng, big)
            q = rng.random()
            if q < pf:
                while ev["what"] in DERIVED:
                    ev = gen_eval(rng, big)
                ops.append(["fail", ev, [[rng.randint(0, 6), rng.randint(
                    0, 5), rng.choice(["before", "after", "mid", "mid",
                                       "nan"]), rng.choice(EXC)]
                    for _ in range(rng.choice([1, 1, 2]))]])
            elif q < 1.6*pf:
                ops.append(["int", ev, round(rng.random(), 4),
                            rng.choice(ASYNC)])
            else:
                ops.append(["eval", ev])
            if rng.random() < .3:
                ops.append(["overwrite"])
            if rng.random() < .5:
                # same evaluation again, after some edit
                e = rng.choice(edits)
                ops.append([e] + edit_args(rng, e, kinds))
                ops.append(["eval", ev])
        elif r < .85:
            e = rng.choice(edits)
            ops.append([e] + edit_args(rng, e, kinds))
        elif r < .93:
            ops.append(["scale"] + rng.choice([[4., 1., 1., 1.], [
                1., 1., .5, 2.], [rng.randint(1, 9), 2, 3., .7],
                [1.5e-25, 1.6e-19, 1e-4, 1e8]]))
        else:
            ops.append(["copy", rng.choice(["shallow", "new", "list",
                                            "pickle", "deep"])])
    ops.append(["eval", gen_eval(rng, big)])
    plan = {"els": els, "ops": ops, "names": rng.choice([99, 99, 3, 1, 0])}
    u = rng.choice([1]*12 + [1e-13, 1e-40, 1e-6, 1e9])
    if u != 1:
        rescale(plan, u)
    if rng.random() < .2:
        k = rng.choice([.02, .2, 10., 100.])
        for o in ops:
            if o[0] in ("eval", "fail", "int"):
                o[1]["x"] = [[float("%.4g" % (c*k)) for c in p]
                             for p in o[1]["x"]]
    return plan


def tweaked(spec, part, at, by):
    """The same geometry but for one number."""
    s = copy.deepcopy(spec)
    t = s["t"]
    parts = {"P": ["cover_nmax", "cover_height", "paths"],
             "Q": ["cover_nmax", "cover_height", "points", "areas"],
             "M": ["cover_nmax", "cover_height", "squares", "pots"],
             "C": ["height"], "G": ["origin", "spacing", "seed"],
             "H": ["f", "g"]}[t]
    k = parts[part % len(parts)]
    v = s[k]
    if k == "cover_nmax":
        s[k] = (v + 1 + at % 2) % 3
    elif k in ("cover_height", "height"):
        s[k] = v + 1. + abs(by)
    elif k == "seed":
        s[k] = v + 1
    elif k in ("paths", "squares"):
        sq = v[at % len(v)]
        sq[at % 4][at % 2] = round(sq[at % 4][at % 2] + .5*by, 3)
    elif k == "points":
        v[at % len(v)][at % 2] += by
    elif k in ("areas", "spacing"):
        v[at % len(v)] += abs(by)
    elif k in ("pots", "origin"):
        v[at % len(v)] += by
    elif k in "fg" and v:
        v[at % len(v)][2] += by
    return s


def gen_volt(rng):
    return world.gen_volt(rng)


def rescale(plan, u):
    """all voltages in other units"""
    for e in plan["els"]:
        e[1:] = [v*u for v in e[1:]]
    for o in plan["ops"]:
        if o[0] == "volt":
            o[3] *= u
        elif o[0] == "volts":
            o[2] = [v*u for v in o[2]]
        elif o[0] in ("append", "insert", "replace", "geom", "slice"):
            o[3:5] = [v*u for v in o[3:5]]


def edit_args(rng, e, kinds):
    i, j = rng.randint(0, 7), rng.randint(0, 7)
    if e == "volt":
        return [i, rng.choice(["dc", "rf"]), gen_volt(rng)]
    if e == "volts":
        return [rng.choice(["dcs", "rfs"]), [gen_volt(rng)
                                             for _ in range(8)]]
    if e in ("tweak", "twin"):
        return [i, j, rng.randint(0, 9), world.rnd(rng, -.4, .4, 2)]
    if e in ("append", "insert", "replace", "geom", "slice"):
        return [i, world.gen_spec(rng, kinds, 5), gen_volt(rng),
                gen_volt(rng)]
    return [i, j]


SHRINK = ("ops", "els")


def shrink(plan):
    for k, o in enumerate(plan["ops"]):
        if o[0] in ("eval", "fail", "int"):
            for key, v in (("d", 0), ("d", 1), ("x", o[1]["x"][:1]),
                           ("form", "array"), ("expand", False), ("t", 0.)):
                if o[1][key] != v and not (key == "d" and o[1][key] <= v):
                    c = copy.deepcopy(plan)
                    c["ops"][k][1][key] = v
                    yield c
            if o[0] != "eval":
                c = copy.deepcopy(plan)
                c["ops"][k] = ["eval", o[1]]
                yield c
            if o[0] == "fail" and len(o[2]) > 1:
                for a in o[2]:
                    c = copy.deepcopy(plan)
                    c["ops"][k][2] = [a]
                    yield c


class World(object):
    def __init__(self, plan, sim):
        self.sim = sim
        self.C = world.classes()
        self.els = []       # (electrode, spec) of the system, parallel
        self.coeff = None
        self.nf = 0
        self.nn = plan["names"]
        self.system = self.C.System()
        for spec, dc, rf in plan["els"]:
            self.add(len(self.system), spec, dc, rf)
        self.held = []
        self.others = []

    def make(self, spec, dc, rf):
        self.nf += 1
        e = self.C.Faulty(world.make_inner(spec), name="e%d" % (
            self.nf % self.nn) if self.nn else "")
        # zero is the default
        if dc:
            e.dc = dc
        if rf:
            e.rf = rf
        return [e, spec, dc, rf]

    def add(self, i, spec, dc, rf):
        m = self.make(spec, dc, rf)
        self.system.insert(i, m[0])
        self.els.insert(i, m)

    def ref(self):
        return world.Ref([m[1] for m in self.els], [m[2] for m in self.els],
                         [m[3] for m in self.els], self.coeff)


def points(ev):
    x = np.array(ev["x"], float).reshape(-1, 3)
    f = ev["form"]
    if f == "one":
        return x[0].copy(), x[:1]
    if f == "list":
        return [list(map(float, p)) for p in x], x
    if f == "strided":
        y = np.zeros((2*len(x), 6))
        y[::2, ::2] = x
        return y[::2, ::2], x
    if f == "fortran":
        return np.asfortranarray(x), x
    if f == "float32":
        y = x.astype(np.float32)
        return y, y.astype(float)
    return x.copy(), x


def call(w, ev):
    S, d, x = w.system, ev["d"], points(ev)[0]
    k = ev["what"]
    if not d and k in ("elec", "indiv", "time", "pseudo") and ev["x"][0][0] < 0:
        # defaults
        kw = {"expand": True} if ev.get("expand") and k in (
            "elec", "time") else {}
        if k == "elec":
            if ev["typ"] != "dc":
                kw["typ"] = ev["typ"]
            return S.electrical_potential(x, **kw)
        if k == "time":
            return S.time_potential(x, t=ev["t"], **kw)
        return (S.individual_potential if k == "indiv"
                else S.pseudo_potential)(x)
    if k == "elec":
        return S.electrical_potential(x, d, ev["typ"], expand=ev["expand"])
    if k == "indiv":
        return S.individual_potential(x, d)
    if k == "time":
        return S.time_potential(x, d, ev["t"], expand=ev["expand"])
    if k == "pseudo":
        return S.pseudo_potential(x, d)
    if k == "pot":
        if ev["typ"] == "default":
            return S.potential(x, d)
        return S.potential(x, d, ev["typ"])
    if k == "modes":
        ew, v = S.modes(x)
        return np.r_[ew, np.dot(v*ew, v.T).ravel()]
    if k == "mathieu":
        try:
            return S.mathieu(x, *mathieu_args(ev), sorted=False)[0]
        except np.linalg.LinAlgError:   # numbers close to the smallest ones
            return None
    if k == "lookup":
        return [S[i] for i in lookups(w)], [S.electrode(i) for i in lookups(
            w)], S.names, S.dcs, S.rfs
    if k == "single":
        if not len(S):
            return None
        e = list(S)[ev["i"] % len(S)]
        p = np.array(ev["x"], float)
        if ev["x"][0][1] < 0:    # unit potential, defaults left out
            u = e.inner.potential(p, d) if d else e.inner.potential(p)
            v = e.potential(p, d, 1.7)
            return v if np.any(np.isnan(v)) or np.allclose(1.7*np.asarray(u), v, 1e-9, 1e-12,
                                    equal_nan=True) else u
        return e.potential(p, d, 1.7)
    raise HarnessError(k)


def mathieu_args(ev):
    return [[1e-3, .05, .3][ev["i"] % 3], 1 + ev["i"] % 2]


def lookups(w):
    return sorted(set(m[0].name for m in w.els)) + ["no such name"]


def first(w, name):
    for m in w.els:
        if m[0].name == name:
            return m[0]


def verify_derived(w, ev, got, where):
    R, x = w.ref(), points(ev)[1][:1]
    w.sim.probe({"lookup": "name-lookup", "modes": "curvature-modes",
                 "mathieu": "mathieu-exponents"}[ev["what"]])
    if ev["what"] == "lookup":
        want = [first(w, i) for i in lookups(w)]
        for g in got[:2]:
            w.sim.check(len(g) == len(want) and all(
                a is b for a, b in zip(g, want)), "wrong-electrode", lambda:
                "%s looking up %s" % (where, lookups(w)))
        for k, (g, v) in enumerate(zip(got[2:], (
                [m[0].name for m in w.els], [m[2] for m in w.els],
                [m[3] for m in w.els]))):
            w.sim.check(list(g) == v, "wrong-list", lambda: "%s reports the "
                        "%s %s, they are %s" % (where, [
                            "names", "dc voltages", "rf voltages"][k],
                            list(g), v))
    elif ev["what"] == "modes":
        pv = dict(ev, what="pot", typ="tot", d=2, form="array",
                  x=x.tolist())
        H, scale = expected(w, pv)
        if not np.all(np.isfinite(H)):
            return
        # the solver uses one half of what is symmetric up to rounding
        w.sim.close(got, np.r_[np.linalg.eigvalsh(H[0]), H[0].ravel()],
                    "wrong-modes", where, rtol=1e-8, atol=1e-300,
                    scale=max(np.max(scale), np.abs(H).max()))
    else:
        s, r = mathieu_args(ev)
        if got is None:
            return
        a = 16*s**2*world.expand(R.electrical(x, 2, "dc"))[0]
        q = 8*s**2*world.expand(R.electrical(x, 2, "rf"))[0]
        from electrode.utils import mathieu
        want = mathieu(r, a, q)[0]/2
        d = np.abs(want[:, None] - got[None, :])
        tol = 1e-3*np.abs(want).max()
        w.sim.check(d.min(0).max() <= tol and d.min(1).max() <= tol,
                    "wrong-modes", lambda: "%s mathieu: exponents %s, those "
                    "of the present curvatures are %s" % (where, got, want))


def expected(w, ev):
    """(value, magnitude) by the reference model."""
    R, d, x = w.ref(), ev["d"], points(ev)[1]
    k = ev["what"]
    w6 = 6.     # entries of an expanded tensor are sums of reduced ones
    if k == "elec":
        v = R.electrical(x, d, ev["typ"])
        s = R.scale(x, d, ev["typ"])
        return (world.expand(v) if ev["expand"] else v), s*w6
    if k == "indiv":
        v = R.individual(x, d)
        return v, None
    if k == "time":
        v = R.electrical(x, d, "dc") + np.cos(ev["t"])*R.electrical(
            x, d, "rf")
        s = R.scale(x, d, "dc") + R.scale(x, d, "rf")
        return (world.expand(v) if ev["expand"] else v), s*w6
    if k == "single":
        if not R.specs:
            return None, None
        return 1.7*world.unit(R.specs[ev["i"] % len(R.specs)],
                              np.array(ev["x"], float), d), None
    s = 0.
    for r in range(d+1):
        s += 3*w6**2*2**d*R.scale(x, r+1, "rf")*R.scale(x, d-r+1, "rf")
    s *= R.coeff**2
    p = R.pseudo(x, d)
    if k == "pseudo":
        return p, s
    dc = world.expand(R.electrical(x, d, "dc"))
    sd = R.scale(x, d, "dc")*w6
    if ev["typ"] == "dc":
        return dc, sd
    if ev["typ"] == "rf":
        return p, s
    return dc + p, s + sd


def verify(w, ev, got, where):
    if ev["what"] == "single" and not w.els:
        return
    if ev["what"] in DERIVED:
        return verify_derived(w, ev, got, where)
    want, scale = expected(w, ev)
    w.sim.close(got, want, "wrong-potential", "%s %s order %d %s:" % (
        where, ev["what"], ev["d"], ev["typ"]), rtol=1e-9, atol=1e-300,
        scale=scale)


def needs_scale(w, ev):
    return ev["what"] in ("pseudo", "pot", "modes") and w.coeff is None


def run_eval(w, ev, where):
    if needs_scale(w, ev):
        try:
            call(w, ev)
        except Exception as e:
            w.sim.log("needs-scale", type(e).__name__)
            return None
        raise core.Violation("made-up-scale", "%s evaluated without a scale"
                             % ev["what"])
    got = call(w, ev)
    verify(w, ev, got, where)
    if ev["what"] == "pseudo":
        w.sim.probe("pseudo")
        if ev["d"] == 4:
            w.sim.probe("order-4-pseudo")
    if len(set(map(id, w.system))) < len(w.system):
        w.sim.probe("duplicate-electrode")
    if not len(w.system):
        w.sim.probe("empty-system")
    elif not any(m[2] or m[3] for m in w.els):
        w.sim.probe("all-zero-voltages")
    w.sim.log("eval", ev["what"], ev["d"])
    return got


def nraise(sim):
    return sum(v for k, v in sim.faults.items() if "raises" in k)


def geom(e, spec, old):
    """Change the geometry of the inner electrode in place."""
    new = world.make_inner(spec)
    inner = e.inner
    if spec["t"] != old["t"]:
        e.inner = new
        return
    for k in ("poly", "paths", "points", "areas", "cover_nmax",
              "cover_height", "height", "edges", "polygons", "potentials",
              "data", "origin", "spacing"):
        if hasattr(new, k):
            o, n = getattr(inner, k), getattr(new, k)
            if isinstance(o, np.ndarray) and o.shape == np.shape(n):
                o[...] = n
            elif (k == "paths" and len(o) == len(n)
                  and all(a.shape == b.shape for a, b in zip(o, n))):
                for a, b in zip(o, n):
                    a[...] = b
            else:
                setattr(inner, k, n)


def execute(plan, sim):
    w = World(plan, sim)
    prev = "start"
    for k, o in enumerate(plan["ops"]):
        op = o[0]
        S, n = w.system, len(w.els)
        where = "op %d" % k
        if op == "eval":
            got = run_eval(w, o[1], where)
            if isinstance(got, np.ndarray):
                w.held.append([got, got.copy()])
            sim.state(prev, o[1]["what"], o[1]["d"], None)
        elif op == "overwrite":
            if w.held and w.held[-1][0].flags.writeable:
                w.held[-1][0][...] = 1e30
                w.held.pop()
                sim.probe("result-overwritten")
        elif op == "fail":
            if needs_scale(w, o[1]):
                continue
            fired0 = sum(sim.faults.values())
            raised0 = nraise(sim)
            seen = set()
            for i, c, mode, exc in o[2]:
                if n:
                    e = w.els[i % n][0]
                    if id(e) not in seen:
                        e.arm({c: (mode, exc)}, sim)
                        seen.add(id(e))
            try:
                got, err = call(w, o[1]), None
            except BaseException as e:
                got, err = None, e
            fired = sum(sim.faults.values()) - fired0
            for m in w.els:
                m[0].disarm()
            if err is not None and not is_injected(err):
                raise err
            if not fired:
                sim.check(err is None, "phantom-failure", "")
                verify(w, o[1], got, where + " (fault not reached)")
                sim.probe("fault-not-reached")
            elif err is None:
                # only a nan may have fired; it shows in the result unless
                # the result does not depend on it
                sim.check(nraise(sim) == raised0, "failure-swallowed",
                          lambda: "%s %s returned %r after a failing "
                          "electrode" % (where, o[1]["what"], got))
                if got is not None and np.all(np.isfinite(got)):
                    verify(w, o[1], got, where + " (nan contribution)")
            sim.state(prev, o[1]["what"], o[1]["d"],
                      o[2][0][2] if fired else "unreached")
            sim.log("failed", type(err).__name__ if err else None)
            run_eval(w, o[1], where + " repeated")
        elif op == "int":
            if needs_scale(w, o[1]):
                continue
            tot = count_lines(lambda: call(w, o[1]))
            if tot:
                it = Interrupter(1 + int(o[2]*tot), o[3])
                try:
                    got, err = it.run(lambda: call(w, o[1])), None
                except BaseException as e:
                    got, err = None, e
                if it.fired:
                    sim.fault("interrupt")
                    sim.check(err is not None, "interrupt-swallowed",
                              lambda: "%s in %s" % (o[3], it.fired))
                    if not is_injected(err):
                        raise err
                elif err is not None:
                    raise err
                sim.state(prev, o[1]["what"], o[1]["d"], it.fired)
            run_eval(w, o[1], where + " repeated")
        elif op == "scale":
            c = S.rf_scale(*o[1:])
            m, q, l, om = map(float, o[1:])
            w.coeff = np.sqrt(q/m)/(2*l*om)
            sim.close(c, w.coeff, "wrong-scale", "rf_scale", rtol=1e-12)
        elif op == "volt":
            if n:
                e = w.els[o[1] % n][0]
                setattr(e, o[2], o[3])
                for m in w.els:
                    if m[0] is e:
                        m[2 if o[2] == "dc" else 3] = o[3]
        elif op == "volts":
            setattr(S, o[1], o[2][:n])
            for m, v in zip(w.els, o[2]):
                for m1 in w.els:
                    if m1[0] is m[0]:
                        m1[2 if o[1] == "dcs" else 3] = v
        elif op == "zero":
            S.dcs = [0.]*n
            if o[1] % 2:
                S.rfs = np.zeros(n)
            for m in w.els:
                m[2] = 0.
                if o[1] % 2:
                    m[3] = 0.
        elif op == "append":
            m = w.make(*o[2:])
            if o[1] % 2:
                S.append(m[0])
            else:
                S.extend([m[0]])
            w.els.append(m)
        elif op == "insert":
            w.add(o[1] % (n+1), *o[2:])
        elif op == "pop":
            if n:
                S.pop(o[1] % n)
                w.els.pop(o[1] % n)
        elif op == "swap":
            if n:
                i, j = o[1] % n, o[2] % n
                a, b = list(S)[i], list(S)[j]
                S[i], S[j] = b, a
                w.els[i], w.els[j] = w.els[j], w.els[i]
        elif op == "reverse":
            S.reverse()
            w.els.reverse()
        elif op == "replace":
            if n:
                m = w.make(*o[2:])
                S[o[1] % n] = m[0]
                w.els[o[1] % n] = m
        elif op == "slice":
            m = w.make(*o[2:])
            i = o[1] % (n+1)
            S[i:] = [m[0]]
            w.els[i:] = [m]
        elif op == "dup":
            if n and n < 8:
                i = o[1] % n
                S.append(w.els[i][0])
                w.els.append(w.els[i])
        elif op == "rename":
            new = ["n%d" % ((i*o[1]) % 3) for i in range(n)]
            S.names = new
            for e, name in dict((id(m[0]), (m[0], v)) for m, v in zip(
                    w.els, new)).values():
                sim.check(e.name == name, "wrong-list", lambda: "%s: names "
                          "%s given, %s taken" % (where, new, S.names))
        elif op == "twin":
            if n and n < 8:
                m = w.els[o[1] % n]
                m = w.make(tweaked(m[1], *o[2:]), m[2], m[3])
                S.append(m[0])
                w.els.append(m)
        elif op in ("geom", "tweak"):
            if n:
                i = o[1] % n
                e = w.els[i][0]
                new = o[2] if op == "geom" else tweaked(w.els[i][1], *o[2:])
                geom(e, new, w.els[i][1])
                for m in w.els:
                    if m[0] is e:
                        m[1] = new
                sim.probe("geometry-edit")
        elif op == "clear":
            if o[1] == 0:
                del S[:]
                del w.els[:]
        elif op == "copy":
            old = (w.system, w.els, w.coeff)
            f = o[1]
            if f == "shallow":
                w.system = copy.copy(S)
                w.coeff = old[2]
            elif f == "new":
                w.system = w.C.System(S)
                w.coeff = None
            elif f == "list":
                w.system = w.C.System(list(S))
                w.coeff = None
            elif f == "deep":
                w.system = w.C.System([clone(w, m) for m in w.els])
                w.coeff = None
                w.els = [[e] + m[1:] for e, m in zip(w.system, w.els)]
            elif f == "pickle":
                # only plain electrodes have a stable pickled form
                w.system = w.C.System([clone(w, m) for m in w.els])
                w.els = [[e] + m[1:] for e, m in zip(w.system, w.els)]
                w.coeff = None
            w.els = list(w.els)
            if f in ("shallow", "new", "list"):
                sim.probe("shared-electrode")
        else:
            raise HarnessError(op)
        sim.log(op)
        prev = op
    for a, b in w.held:
        sim.check(np.array_equal(a, b, equal_nan=True), "result-changed",
                  "a result handed out earlier changed later")


def clone(w, m):
    e = w.C.Faulty(pickle.loads(pickle.dumps(m[0].inner, 2)),
                   name=m[0].name)
    e.dc, e.rf = m[0].dc, m[0].rf
    return e
