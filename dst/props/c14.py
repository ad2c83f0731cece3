"""Adaptive meshing against a simulated triangulator and solver."""
import contextlib
import copy
import io
import re
import sys
import types

import numpy as np

from .. import core
from ..core import Interrupter, count_lines, is_injected, make_exc
from ..solver import SimSolver

ID = "C14"
RUNS = {"quick": 5000, "thorough": 150000}
BATCH = 8
RULE = ("A run calls adapt_mesh on random paths, fixed electrodes, objectives "
        "and parameters. A simulated triangulator answers every request: it "
        "refines where asked, or somewhere, or not at all, or starts over, "
        "renumbers and rotates the triangles, and records what it was asked; "
        "its script ends the refinement. Triangulator, solver or the symmetry "
        "callback may fail at any call, before or after the work, and the "
        "call may be interrupted at any executed line; it is then repeated "
        "undisturbed. Non-trivial: at least one refinement was asked for.")
REAL = ["electrode.adaptive", "System.optimize", "pattern_constraints",
        "PolygonPixelElectrode", "cvxopt"]
STUB = ["bem.pytriangle.triangulate", "solver faults (dst/solver.py)",
        "standard output"]
STATE_MEASURE = ("distinct (paths, fixed, symmetry, per request (triangles "
                 "in range, refined share), outcome)")
FAULTS = ["triangulator-raises", "triangulator-raises-after",
          "solver-raise", "solver-raise-after", "solver-status",
          "solver-lost", "symmetry-raises", "interrupt", "print-raises",
          "mesh-restarted", "mesh-stalled", "renumbered"]
PROBES = ["iterations-2", "iterations-4", "border-edges", "fixed-paths",
          "fixed-electrodes", "symmetry-copies", "first-too-fine", "refined",
          "coarsened", "repeated", "several-paths", "verbose", "kwargs",
          "infeasible-raises"]
ASSUMPTIONS = [
    "a neighbour of -1 marks the border, as Triangle writes it",
    "the triangulator may return any triangles in any order",
    "if the first mesh is already too fine, no result (None) or an error"]
SHRINK = ("fixed", "answers")
ASYNC = ["KeyboardInterrupt", "MemoryError", "InjectedBase"]
EXC = ["OSError", "Injected", "ValueError", "KeyboardInterrupt",
       "MemoryError", "RuntimeError", "KeyError", "IndexError"]
EXC = [i for i in EXC if i in core.EXC]


def rect(rng, x, y):
    w, h = rng.choice([.6, 1., 1., 2.]), rng.choice([.5, 1., 1.])
    p = [[x, y], [x + w, y], [x + w, y + h], [x, y + h]]
    if rng.random() < .3:
        p = p[:3]
    return [[round(a, 3), round(b, 3)] for a, b in p]


def gen(rng, idx):
    n = rng.choice([1, 1, 2, 3])
    paths = [rect(rng, 2.5*(i % 2) - 2., 1.5*(i//2) - .5) for i in range(n)]
    fixed = []
    for i in range(rng.choice([0, 0, 0, 1, 2])):
        fixed.append([rng.choice(["path", "electrode"]),
                      rect(rng, -5., 2.*i), rng.random() < .3])
    answers = []
    for _ in range(rng.choice([1, 2, 3, 4, 5, 6])):
        answers.append({"how": rng.choice(["ask", "ask", "ask", "some",
                                           "stall", "restart"]),
                        "u": round(rng.random(), 4),
                        "shuffle": rng.random() < .5})
    ctrs = [["range", rng.choice([0., -1., None]), 1.]]
    if ctrs[0][1] is None:
        ctrs = [["range", -1., 1.]]
    for _ in range(rng.choice([1, 1, 2])):
        ctrs.append(["pot", [round(rng.uniform(-1, 1), 2),
                             round(rng.uniform(-.5, .5), 2),
                             round(rng.uniform(.6, 1.5), 2)],
                     rng.choice(["x", "y", "z", "xx", "xy", "yy", "xxy"]),
                     rng.choice([1., 1., -1., .5])])
    fault = None
    r = rng.random()
    if r < .12:
        fault = ["tri", rng.randint(0, 4), rng.choice(EXC)]
    elif r < .2:
        fault = ["tri-after", rng.randint(0, 4), rng.choice(EXC)]
    elif r < .45:
        fault = ["solver", rng.randint(0, 3), rng.choice(
            [["raise", rng.choice(EXC)], ["raise-after", rng.choice(EXC)],
             ["status", rng.choice(["unknown", "primal infeasible"])],
             ["lost", rng.choice(["unknown", "dual infeasible"])]])]
    elif r < .53:
        fault = ["sym", rng.randint(0, 20), rng.choice(EXC)]
    elif r < .7:
        fault = ["int", round(rng.random(), 5), rng.choice(ASYNC)]
    elif r < .73:
        fault = ["print", rng.randint(0, 3), "OSError"]
    return {"paths": paths, "fixed": fixed, "answers": answers, "ctrs": ctrs,
            "threshold": rng.choice([None, .5, .1, .9, 1.5, 0.]),
            "nmax": rng.choice([4, 8, 12, 20, 30]), "seed": rng.randrange(
                1 << 30),
            "a": rng.choice([None, 1, .3, .05]), "q": rng.choice([None, 20,
                                                                 30.5]),
            "up": rng.choice([None, 2., 16.]), "down": rng.choice(
                [None, 2., 4.]),
            "sym": rng.choice([None, None, "same", "mirror", "three",
                               "transformer"]),
            "kw": rng.choice([None, None, {"name": "m"}, {"rf": 2.}]),
            "verbose": rng.random() < .2 or bool(fault and
                                                 fault[0] == "print"),
            "fault": fault}


def shrink(plan):
    for key, v in (("fault", None), ("sym", None), ("kw", None),
                   ("verbose", False), ("a", None), ("q", None), ("up", None),
                   ("down", None), ("threshold", None),
                   ("ctrs", plan["ctrs"][:2])):
        if plan[key] != v:
            c = copy.deepcopy(plan)
            c[key] = v
            yield c
    if len(plan["paths"]) > 1:
        yield dict(copy.deepcopy(plan), paths=plan["paths"][:1])
    for k, a in enumerate(plan["answers"]):
        for key, v in (("how", "ask"), ("shuffle", False)):
            if a[key] != v:
                c = copy.deepcopy(plan)
                c["answers"][k][key] = v
                yield c


CURRENT = None


def install():
    """stand-ins for the packages that are not here, before the import"""
    if "electrode.adaptive" in sys.modules:
        return
    m = types.ModuleType("bem")
    m.__path__ = []
    t = types.ModuleType("bem.pytriangle")

    def triangulate(*a, **k):
        return CURRENT(*a, **k)
    t.triangulate = triangulate
    m.pytriangle = t
    sys.modules["bem"], sys.modules["bem.pytriangle"] = m, t
    import electrode.adaptive   # noqa


class Triangulator(object):
    """Answers with a conforming mesh; a script says how it is refined."""

    def __init__(self, plan, sim, fault):
        self.plan, self.sim, self.fault = plan, sim, fault
        self.rng = np.random.RandomState(plan["seed"])
        self.asked, self.given = [], []
        self.fired = False

    def base(self):
        pts, tri = [], []
        for p in self.plan["paths"]:
            k = len(pts)
            pts.extend(p)
            tri.extend([k, k + i, k + i + 1] for i in range(1, len(p) - 1))
        return np.array(pts), tri

    def __call__(self, opts="", **args):
        sim, k = self.sim, len(self.asked)
        self.asked.append((opts, copy.deepcopy(args)))
        sim.check(k < 40, "no-progress", "40 triangulations")
        f = self.fault
        if f and f[0] == "tri" and f[1] == k:
            self.fired = True
            sim.fault("triangulator-raises")
            raise make_exc(f[2], "triangulator")
        out = self.answer(k, opts, args)
        self.given.append(copy.deepcopy(out))
        if f and f[0] == "tri-after" and f[1] == k:
            self.fired = True
            sim.fault("triangulator-raises-after")
            raise make_exc(f[2], "triangulator")
        return out

    def answer(self, k, opts, args):
        sim, rng = self.sim, self.rng
        plan = self.plan
        ans = plan["answers"]
        last = k >= len(ans)
        a = ans[k] if not last else {"how": "end", "u": .5, "shuffle": False}
        if k == 0 or a["how"] == "restart":
            pts, tri = self.base()
            pts = [list(i) for i in pts]
            if k:
                sim.fault("mesh-restarted")
        else:
            pts = [list(i) for i in self.given[-1]["points"]]
            tri = [list(i) for i in self.given[-1]["triangles"]]

        def area(t):
            (x0, y0), (x1, y1), (x2, y2) = (pts[i] for i in t)
            return ((x1-x0)*(y2-y0) - (x2-x0)*(y1-y0))/2.

        def split(i):
            t = tri[i]
            w = rng.uniform(.25, .45, 2)
            w = np.r_[w, 1 - w.sum()]
            pts.append(list(np.dot(w, [pts[j] for j in t])))
            c = len(pts) - 1
            tri[i] = [t[0], t[1], c]
            tri.append([t[1], t[2], c])
            tri.append([t[2], t[0], c])

        want = args.get("triangleareas")
        n = len(tri)
        if a["how"] == "ask" and want is not None and len(want) == n:
            for i in range(n):
                if area(tri[i]) > want[i]:
                    split(i)
        elif a["how"] in ("some", "restart") or k == 0:
            for i in range(n):
                if rng.uniform() < a["u"]:
                    split(i)
        elif a["how"] == "stall":
            sim.fault("mesh-stalled")
        if last:
            while len(tri) <= plan["nmax"]:
                for i in range(len(tri)):
                    split(i)
        if a["shuffle"]:
            sim.fault("renumbered")
            rng.shuffle(tri)
            tri = [list(np.roll(t, rng.randint(3))) for t in tri]
        tri = np.array(tri, dtype=np.intc)
        edges = {}
        for i, t in enumerate(tri):
            for j in range(3):
                edges.setdefault(frozenset((t[j-2], t[j-1])), []).append(
                    (i, j))
        nb = -np.ones((len(tri), 3), dtype=np.intc)
        for e in edges.values():
            if len(e) == 2:
                nb[e[0]] = e[1][0]
                nb[e[1]] = e[0][0]
        out = {"points": np.array(pts, dtype=np.double), "triangles": tri,
               "neighbors": nb}
        for i in ("segments", "segmentmarkers"):
            if i in args:
                out[i] = np.array(args[i])
        return out


def constraints(plan):
    from electrode.pattern_constraints import (PatternRangeConstraint,
                                               PotentialObjective)
    out = []
    for c in plan["ctrs"]:
        if c[0] == "range":
            out.append(PatternRangeConstraint(min=c[1], max=c[2]))
        else:
            out.append(PotentialObjective(x=np.array(c[1]), derivative=c[2],
                                          value=c[3]))
    return out


def symmetric(kind, p):
    """reference copies of a triangle"""
    p = np.array(p)
    if kind is None or kind == "same":
        return [p]
    m = p*[1, -1] - [0., 4.]
    out = [p, m[::-1]]
    if kind == "three":
        out.append(p + [0., 7.])
    return out


class Printer(io.StringIO):
    def __init__(self, fault, sim):
        super().__init__()
        self.f, self.sim, self.n, self.fired = fault, sim, 0, False

    def write(self, s):
        if self.f and self.f[0] == "print":
            self.n += 1
            if self.n > self.f[1] and not self.fired:
                self.fired = True
                self.sim.fault("print-raises")
                raise make_exc(self.f[2], "print")
        return super().write(s)


def call(plan, sim, fault):
    """one adapt_mesh call; result or error, triangulator, fired"""
    global CURRENT
    from electrode import adaptive
    from electrode.electrode import PolygonPixelElectrode
    tri = CURRENT = Triangulator(plan, sim, fault)
    paths = [np.array(p, dtype=float) for p in plan["paths"]]
    keep = copy.deepcopy(paths)
    fixed = []
    for how, p, neg in plan["fixed"]:
        p = np.array(p, dtype=float)
        fixed.append(p if how == "path" else
                     PolygonPixelElectrode(paths=[p], name="f"))
    nfix = len(fixed)
    ctrs = constraints(plan)
    kw = dict(plan["kw"] or {})
    kw0 = dict(kw)
    for i in ("threshold", "nmax", "a", "q", "up", "down"):
        if plan[i] is not None:
            kw[i] = plan[i]
    if fixed:
        kw["fixed"] = fixed
    if plan["verbose"]:
        kw["verbose"] = True
    count = [0]
    state = {"fired": False}
    if plan["sym"] or (fault and fault[0] == "sym"):
        if plan["sym"] == "transformer":
            m = np.diag([1., -1., 1., 1.])
            m[1, 3] = -4.
            base = adaptive.transformer([(np.identity(4), 1), (m, -1)])
        else:
            def base(p):
                return symmetric(plan["sym"], p)

        def symmetry(p):
            count[0] += 1
            if fault and fault[0] == "sym" and count[0] == fault[1] + 1:
                state["fired"] = True
                sim.fault("symmetry-raises")
                raise make_exc(fault[2], "symmetry")
            return base(p)
        kw["symmetry"] = symmetry
    script = {fault[1]: fault[2]} if fault and fault[0] == "solver" else None
    it = None
    if fault and fault[0] == "int":
        it = Interrupter(1 + int(fault[1]*fault[3]), fault[2])
    pr = Printer(fault, sim)
    res = err = None
    with SimSolver(sim, script) as ss, contextlib.redirect_stdout(pr):
        def go():
            return adaptive.adapt_mesh(ctrs, paths, **kw)
        try:
            res = it.run(go) if it else go()
        except core.Violation:
            raise
        except BaseException as e:
            err = e
    if it and it.fired:
        state["fired"] = True
        sim.fault("interrupt")
    fired = (state["fired"] or tri.fired or bool(ss.fired) or pr.fired)
    sim.check(len(paths) == len(keep) and all(
        np.array_equal(a, b) for a, b in zip(paths, keep)),
        "paths-changed", "the caller's paths")
    sim.check(len(fixed) == nfix, "fixed-changed", "the caller's list of "
              "fixed electrodes now has %d entries" % len(fixed))
    return res, err, tri, fired, fixed, ss, kw0


def execute(plan, sim):
    install()
    fault = plan["fault"]
    if fault and fault[0] == "int":
        q = Quiet()
        n = count_lines(lambda: call(plan, q, None))
        fault = fault + [max(n, 1)]
    if plan["verbose"]:
        sim.probe("verbose")
    if plan["kw"]:
        sim.probe("kwargs")
    if len(plan["paths"]) > 1:
        sim.probe("several-paths")
    judge(plan, sim, fault, "call")
    if fault:
        judge(plan, sim, None, "repeated call")
        sim.probe("repeated")


class Quiet(object):
    def __getattr__(self, k):
        return lambda *a, **k: None


def judge(plan, sim, fault, where):
    res, err, tri, fired, fixed, ss, kw = call(plan, sim, fault)
    sim.log(where, type(err).__name__, len(tri.asked), fired)
    rounds = requests(plan, sim, tri, fixed, kw, err, fired, where)
    if fired:
        sim.check(err is not None, "failure-swallowed", lambda: "%s: "
                  "returned in spite of %s" % (where, fault))
        if fault[0] != "solver" or fault[2][0].startswith("raise"):
            sim.check(is_injected(err), "failure-replaced", lambda: "%s: %s"
                      % (where, core.short_tb(err)))
        return
    if err is not None:
        # infeasible or unbounded, as it is alone
        n = tri.given[-1]["triangles"].shape[0] if tri.given else 0
        ok = (rounds and rounds[-1][0] == "failed") or (
            n > plan["nmax"] and len(tri.given) == 1)
        sim.check(ok, "unexpected-failure", lambda: "%s: %s" % (
            where, core.short_tb(err)))
        sim.probe("infeasible-raises")
        return
    sim.check(isinstance(res, tuple) and len(res) == 3, "wrong-result", where)
    s, v, c = res
    sim.check(tri.given[-1]["triangles"].shape[0] > plan["nmax"],
              "stopped-early", lambda: "%s: with %d of %d triangles" % (
                  where, tri.given[-1]["triangles"].shape[0], plan["nmax"]))
    if not rounds:
        sim.probe("first-too-fine")
        sim.check(s is None and v is None and c is None, "wrong-result",
                  lambda: "%s: %s without any iteration" % (where, res))
        return
    _, s0, v0, c0 = rounds[-1]
    same_system(sim, s, s0, where)
    sim.close(v, v0, "wrong-voltages", where + " voltages of the last mesh",
              rtol=1e-6, atol=1e-7)
    sim.close(c, c0, "wrong-strength", where + " strength of the last mesh",
              rtol=1e-6, atol=1e-9)


def same_system(sim, s, s0, where):
    sim.check(len(s) == len(s0), "wrong-system", lambda: "%s: %d electrodes, "
              "the last mesh has %d" % (where, len(s), len(s0)))
    for i, (a, b) in enumerate(zip(s, s0)):
        sim.check(len(a.paths) == len(b.paths) and all(
            np.shape(p) == np.shape(q) and np.allclose(p, q, rtol=1e-12,
                                                       atol=1e-12)
            for p, q in zip(a.paths, b.paths)), "wrong-system", lambda:
            "%s: electrode %d is %s, expected %s" % (where, i, a.paths,
                                                     b.paths))
        sim.check((a.name, a.rf, a.dc) == (b.name, b.rf, b.dc),
                  "wrong-system", lambda: "%s: electrode %d attributes" % (
                      where, i))


def requests(plan, sim, tri, fixed, kw, err, fired, where):
    """judge every request to the triangulator, redo each iteration"""
    from electrode import System, PolygonPixelElectrode
    rounds = []
    th = .5 if plan["threshold"] is None else plan["threshold"]
    up = 16. if plan["up"] is None else plan["up"]
    down = 4. if plan["down"] is None else plan["down"]
    expect = None
    st = []
    for k, (opts, args) in enumerate(tri.asked):
        w = "%s, request %d" % (where, k)
        for s, key, dflt in (("q", "q", 20), ("a", "a", 1)):
            m = re.search(s + r"(\d+(?:\.\d*)?(?:e-?\d+)?)", opts)
            val = dflt if plan[key] is None else plan[key]
            if k == 0:
                sim.check(m and abs(float(m.group(1)) - val) < 1e-5,
                          "wrong-options", lambda: "%s: %s" % (w, opts))
        sim.check("n" in opts, "wrong-options", lambda: "%s: %s asks for no "
                  "neighbours" % (w, opts))
        if k == 0:
            first(plan, sim, args, w)
        else:
            prev = tri.given[k-1]
            for key in ("points", "triangles"):
                sim.check(key in args and np.array_equal(
                    args[key], prev[key]), "wrong-request", lambda: "%s: %s "
                    "is not the previous answer" % (w, key))
            lo, hi = expect
            got = np.asarray(args.get("triangleareas"))
            sim.check(got.shape == lo.shape, "wrong-areas", lambda: "%s: "
                      "triangleareas %s" % (w, got))
            bad = ~(np.isclose(got, lo, rtol=1e-9, atol=0)
                    | np.isclose(got, hi, rtol=1e-9, atol=0))
            sim.check(not bad.any(), "wrong-areas", lambda: "%s: triangle %d "
                      "is asked for area %g, expected %g" % (
                          w, bad.argmax(), got[bad.argmax()],
                          lo[bad.argmax()]))
            sim.nontrivial = True
        if len(tri.given) <= k:
            break
        g = tri.given[k]
        n = len(g["triangles"])
        last = k == len(tri.asked) - 1
        if n > plan["nmax"]:
            sim.check(last, "not-stopped", lambda: "%s: goes on with %d "
                      "triangles" % (w, n))
            break
        if last and fired:
            break
        s = System()
        for (how, p, _), f in zip(plan["fixed"], fixed):
            if how == "path":
                s.append(PolygonPixelElectrode(paths=[np.array(p)], **kw))
                sim.probe("fixed-paths")
            else:
                s.append(f)
                sim.probe("fixed-electrodes")
        areas = []
        for t in g["triangles"]:
            p = g["points"][t]
            e1, e2 = p[1] - p[0], p[2] - p[0]
            areas.append((e1[0]*e2[1] - e1[1]*e2[0])/2.)
            s.append(PolygonPixelElectrode(paths=symmetric(
                {"transformer": "mirror"}.get(plan["sym"], plan["sym"]), p),
                **kw))
        if plan["sym"] not in (None, "same"):
            sim.probe("symmetry-copies")
        try:
            v, c = s.optimize(constraints(plan), verbose=False)
        except Exception:
            rounds.append(("failed",))
            sim.check(last and err is not None, "failure-swallowed",
                      lambda: "%s: the optimization fails" % w)
            break
        rounds.append(("ok", s, v, c))
        areas = np.array(areas)
        pot = v[len(fixed):]
        nb = g["neighbors"]
        if (nb < 0).any():
            sim.probe("border-edges")
        jump = np.where(nb < 0, 0., np.fabs(pot[nb] - pot[:, None])).max(1)
        m = 1e-4
        fine, coarse = areas/down, areas*up
        lo = np.where(jump > th + m, fine, np.where(jump < th - m, coarse,
                                                   fine))
        hi = np.where(jump > th + m, fine, coarse)
        expect = lo, hi
        if (jump > th + m).any():
            sim.probe("refined")
        if (jump < th - m).any():
            sim.probe("coarsened")
        st.append([n//4, int(4*(jump > th).mean())])
    if len(rounds) > 1:
        sim.probe("iterations-2")
    if len(rounds) > 3:
        sim.probe("iterations-4")
    sim.state(len(plan["paths"]), len(fixed), plan["sym"], st,
              type(err).__name__)
    return rounds


def first(plan, sim, args, w):
    pts = np.concatenate([np.array(p) for p in plan["paths"]])
    g = args.get("points")
    sim.check(isinstance(g, np.ndarray) and g.dtype == np.double
              and g.shape == pts.shape and np.array_equal(g, pts),
              "wrong-mesh", lambda: "%s: points %s" % (w, g))
    sg = np.asarray(args.get("segments"))
    mk = np.asarray(args.get("segmentmarkers"))
    sim.check(sg.shape == pts.shape and sg.dtype == np.intc
              and mk.shape == (len(pts),) and mk.dtype == np.intc,
              "wrong-mesh", lambda: "%s: segments %s" % (w, sg))
    want = {}
    k = 0
    for i, p in enumerate(plan["paths"]):
        for j in range(len(p)):
            want[frozenset((k + j, k + (j+1) % len(p)))] = i
        k += len(p)
    got = {frozenset(int(i) for i in a): int(b) for a, b in zip(sg, mk)}
    sim.check(set(got) == set(want), "wrong-mesh", lambda: "%s: segments do "
              "not close the paths: %s" % (w, sg))
    ids = {}
    for s, i in want.items():
        ids.setdefault(i, set()).add(got[s])
    sim.check(all(len(i) == 1 for i in ids.values()) and len(
        set.union(*ids.values())) == len(ids), "wrong-mesh", lambda: "%s: "
        "markers %s" % (w, mk))
    sim.check(min(got.values()) > 1, "wrong-mesh", lambda: "%s: markers 0 "
              "and 1 are reserved" % w)
