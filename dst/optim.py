"""Constraints as data, the objects built from them, and an independent
linear-programming reference."""
import itertools

import numpy as np

from . import core, world
from .core import HarnessError
from .world import rnd

INF = float("inf")


def rot(a):
    """rotation about a fixed skew axis"""
    if a is None:
        return None
    k = np.array([[0, -.3, .5], [.3, 0, -.2], [-.5, .2, 0]])
    n = np.sqrt(.3**2+.5**2+.2**2)
    k = k/n
    return np.eye(3) + np.sin(a)*k + (1-np.cos(a))*np.dot(k, k)


DERIVS = ["", "x", "y", "z", "xx", "yy", "xy", "yz", "xz", "xxx", "xyz",
          "yyz", "xxy"]


def usable(d, cache={}):
    """names the constraints accept (they refuse most traces)"""
    if d not in cache:
        from electrode.utils import deriv_to_reduced_idx
        try:
            deriv_to_reduced_idx(d)
            cache[d] = True
        except Exception:
            cache[d] = False
    return cache[d]


def gen_x(rng):
    return [rnd(rng, -.6, .6), rnd(rng, -.6, .6), rnd(rng, .5, 1.3)]


def gen_pot(rng, value=None):
    c = {"t": "pot", "x": gen_x(rng), "d": rng.choice(DERIVS[1:9]
         if rng.random() < .8 else DERIVS),
         "rot": rng.choice([None, None, rnd(rng, -3, 3)])}
    if value is not None:
        c["value"] = value
        if rng.random() < .15:      # also limited
            c[rng.choice(["min", "max"])] = rng.choice([0, 0., .1, -.1])
    else:
        k = rng.choice(["min", "max", "offset", "minmax"])
        if k == "minmax":
            a = rnd(rng, -.3, .2)
            c.update(min=a, max=round(a+rng.choice([.05, .3, 1.]), 3))
        else:
            c[k] = limit(rng)
            if k == "offset" and rng.random() < .2:
                # with limits that contain, or exclude, the exact value
                c[rng.choice(["min", "max"])] = round(
                    c[k] + rng.choice([-.1, -.02, .02, .1]), 3)
    return c


def limit(rng):
    return rnd(rng, -.2, .2) if rng.random() < .7 else rng.choice(
        [0, 0., 1e-3, 1])


def gen_multi(rng, **kw):
    return dict({"t": "multi", "c": [
        {"t": "pot", "x": gen_x(rng), "d": rng.choice(DERIVS[1:9]),
         "rot": rng.choice([None, rnd(rng, -3, 3)]),
         "value": rng.choice([1, -1, .5, 2, 0])}
        for _ in range(rng.randint(1, 3))]}, **kw)


def gen_range(rng, n):
    r = rng.random()
    if r < .6:
        return {"t": "range", "min": rng.choice([-1, -1., -.5, -3.]),
                "max": rng.choice([1, 1., 2.]), "index": None}
    if r < .8:
        return {"t": "range", "min": rng.choice([0, None, rnd(rng, -1, 0)]),
                "max": rng.choice([0, None, 1, rnd(rng, 0, 1)]),
                "index": rng.randrange(n)*rng.choice([1, 1, 1, 0])}
    v = rnd(rng, -.5, .5)
    if r > .96:     # cannot be met
        return {"t": "range", "min": v, "max": round(v - .1, 3),
                "index": rng.choice([None, 0, rng.randrange(n)])}
    if rng.random() < .2:
        v = 0
    w = v
    if rng.random() < .35:      # a narrow range
        v = rng.choice([v, 1, -1, 2.])
        w = round(v + rng.choice([5e-4, 9e-4, .002, .008, .03]), 5)
    return {"t": "range", "min": v, "max": w, "index": rng.choice(
        [0, rng.randrange(n)])}


def gen_vd(rng, n):
    c = {"t": "vd", "order": rng.randint(0, 2), "delta": rng.choice([1, 1, 2]),
         "norm": rng.choice(["one", "one", "inf"]), "abs": True,
         "smooth": rng.random() < .25, "weight": rng.choice([0, 1, .5, 2.])}
    if rng.random() < .15:
        c["abs"] = False
        if c["norm"] == "one" and rng.random() < .5:
            c["min"] = rng.choice([-1., -.1, 0, .1])
    if not c["weight"] or rng.random() < .3:
        c["max"] = rng.choice([.5, 1., 3., 0])
    return c


def make(c):
    from electrode import (PotentialObjective, MultiPotentialObjective,
                           PatternRangeConstraint)
    from electrode.pattern_constraints import VoltageDerivativeConstraint
    kw = {k: c[k] for k in ("value", "min", "max", "offset") if k in c}
    if c["t"] == "pot":
        return PotentialObjective(x=np.array(c["x"], float), derivative=c["d"],
                                  rotation=rot(c["rot"]), **kw)
    if c["t"] == "multi":
        return MultiPotentialObjective(components=[make(i) for i in c["c"]],
                                       **kw)
    if c["t"] == "range":
        return PatternRangeConstraint(min=c["min"], max=c["max"],
                                      index=c["index"])
    if c["t"] == "vd":
        kw = {k: v for k, v in c.items() if k != "t"}
        if c["order"] != 1:     # leave the rest to the defaults
            for k, v in (("weight", 0), ("smooth", False), ("delta", 1),
                         ("norm", "one"), ("abs", True)):
                if kw[k] == v:
                    del kw[k]
        return VoltageDerivativeConstraint(**kw)
    raise HarnessError(c)


# ------------------------------------------------------------ reference

class RefSystem(object):
    def __init__(self, specs):
        self.specs, self.cache = specs, {}

    def tensors(self, x, order):
        k = (tuple(x), order)
        if k not in self.cache:
            self.cache[k] = np.array([world.expand(world.unit(
                s, [x], order))[0] for s in self.specs])
        return self.cache[k]

    def row(self, c):
        if c["t"] == "multi":
            r = np.zeros(len(self.specs))
            for i in c["c"]:
                if i.get("value") is not None:
                    r = r + i["value"]*self.row(i)
            return r
        T = self.tensors(c["x"], len(c["d"]))
        R = rot(c["rot"])
        R = np.eye(3) if R is None else R
        for ch in c["d"]:
            # contract the first tensor axis with the new unit vector
            T = np.tensordot(T, R[:, "xyz".index(ch)], axes=([1], [0]))
        return T


def differences(c, items):
    """Finite differences of a list of vectors (linear maps)."""
    o, dl = list(items), c["delta"]
    for i in range(c["order"]):
        if c["smooth"] and i % 2 == 0:
            o = o[dl:0:-1] + o + o[-2:-2-dl:-1]
        o = [o[i+dl] - o[i] for i in range(len(o)-dl)]
    return [v/dl**c["order"] for v in o]


class LP(object):
    """max/min c.x with epigraph variables for norms."""

    def __init__(self, n):
        self.n, self.A, self.lo, self.hi = n, [], [], []

    def var(self):
        self.n += 1
        return self.n-1

    def add(self, terms, lo, hi):
        self.A.append(terms)
        self.lo.append(lo)
        self.hi.append(hi)

    def solve(self, cost):
        from scipy.optimize import linprog
        Au, bu, Ae, be = [], [], [], []
        for t, lo, hi in zip(self.A, self.lo, self.hi):
            r = np.zeros(self.n)
            for i, v in t:
                r[i] += v
            if lo == hi:
                Ae.append(r)
                be.append(lo)
            else:
                if hi < INF:
                    Au.append(r)
                    bu.append(hi)
                if lo > -INF:
                    Au.append(-r)
                    bu.append(-lo)
        c = np.zeros(self.n)
        for i, v in cost:
            c[i] += v
        # its presolve crashes on some unbounded problems
        with core.reference():
            r = linprog(c, A_ub=np.array(Au) if Au else None,
                        b_ub=bu if Au else None,
                        A_eq=np.array(Ae) if Ae else None,
                        b_eq=be if Ae else None,
                        bounds=[(None, None)]*self.n, method="highs",
                        options={"presolve": False})
        return r.status, r.fun, r.x


def dense(v, off=0):
    return [(off+i, float(a)) for i, a in enumerate(v) if a]


def local_rows(ref, ctrs, lp, off, n):
    """inequalities of ordinary constraints on the variables at off"""
    for c in ctrs:
        if c["t"] in ("pot", "multi"):
            if any(c.get(k) is not None for k in ("min", "max", "offset")):
                r = dense(ref.row(c), off)
                if c.get("offset") is not None:
                    lp.add(r, float(c["offset"]), float(c["offset"]))
                if c.get("min") is not None:
                    lp.add(r, float(c["min"]), INF)
                if c.get("max") is not None:
                    lp.add(r, -INF, float(c["max"]))
        elif c["t"] == "range":
            for i in (range(n) if c["index"] is None else [c["index"]]):
                lo = -INF if c["min"] is None else float(c["min"])
                hi = INF if c["max"] is None else float(c["max"])
                lp.add([(off+i, 1.)], lo, hi)


def feasibility(ref, ctrs, u):
    """worst violation of the ordinary constraints by the voltages u"""
    w = 0.
    for c in ctrs:
        if c["t"] in ("pot", "multi"):
            v = float(np.dot(ref.row(c), u))
            if c.get("offset") is not None:
                w = max(w, abs(v-c["offset"]))
            if c.get("min") is not None:
                w = max(w, c["min"]-v)
            if c.get("max") is not None:
                w = max(w, v-c["max"])
        elif c["t"] == "range":
            vs = u if c["index"] is None else u[c["index"]:c["index"]+1]
            if c["min"] is not None:
                w = max(w, float(np.max(c["min"]-vs)))
            if c["max"] is not None:
                w = max(w, float(np.max(vs-c["max"])))
    return w


def objectives(ref, ctrs):
    o = [c for c in ctrs if c["t"] in ("pot", "multi")
         and c.get("value") is not None]
    if not o:
        return np.zeros((0, len(ref.specs))), np.zeros(0)
    return np.array([ref.row(c) for c in o]), np.array(
        [float(c["value"]) for c in o])


def ref_optimize(ref, ctrs):
    """("ok", c) / ("bad", why) / ("unclear", why): the largest c with
    rows p = c values and all constraints met."""
    B, b = objectives(ref, ctrs)
    n = len(ref.specs)
    if not len(B) or not np.any(b):
        return "unclear", "no objective"
    nr = np.linalg.norm(B, axis=1)
    if np.any(nr < 1e-5) or len(B) > n:
        return "unclear", "degenerate"
    sv = np.linalg.svd(B/nr[:, None], compute_uv=False)
    if sv[-1] < 1e-2*sv[0] or nr.min() < 1e-3*nr.max():
        return "unclear", "dependent objectives"
    lp = LP(n)
    s = lp.var()
    for r, v in zip(B, b):
        lp.add(dense(r) + [(s, -v)], 0., 0.)
    local_rows(ref, ctrs, lp, 0, n)
    st, fun, x = lp.solve([(s, -1.)])
    if st == 0:
        return "ok", -fun
    if st == 2:
        return "bad", "infeasible"
    if st == 3:
        return "bad", "unbounded"
    return "unclear", "reference status %s" % st


def norms(c, maps, lp=None, off=None):
    """terms of a voltage derivative constraint: list of lists of rows; each
    inner list is reduced by the norm."""
    return differences(c, maps)


def ref_solve(ref, loc, glob):
    """Reference for solve(); (status, value, LP)."""
    n, m = len(ref.specs), len(loc)
    lp = LP(n*m)
    cost = []

    def bound(c, rows):
        """epigraph variable of the norm of |rows x|"""
        t = lp.var()
        ss = []
        for r in rows:
            a = lp.var() if c["norm"] == "one" else t
            if not c["abs"] and c["norm"] == "one":
                lp.add(dense(r) + [(a, -1.)], 0., 0.)
            else:
                lp.add(dense(r) + [(a, -1.)], -INF, 0.)
            if c["abs"]:
                lp.add(dense(-r) + [(a, -1.)], -INF, 0.)
            ss.append((a, 1.))
        if c["norm"] == "one":
            lp.add(ss + [(t, -1.)], 0., 0.)
        return t

    def vd(c, groups):
        for rows in groups:
            if c.get("weight"):
                cost.append((bound(c, rows), float(c["weight"])))
            if c.get("max") is not None:
                lp.add([(bound(c, rows), 1.)], -INF, float(c["max"]))
            if c.get("min") is not None:
                lp.add([(bound(c, rows), 1.)], float(c["min"]), INF)

    I = np.eye(n*m)
    for k, cs in enumerate(loc):
        local_rows(ref, cs, lp, k*n, n)
        for c in cs:
            if c["t"] == "vd":
                ds = differences(c, [I[k*n+i] for i in range(n)])
                vd(c, [[d] for d in ds])
    for c in glob:
        if c["t"] == "vd":
            ds = differences(c, [I[k*n:(k+1)*n] for k in range(m)])
            vd(c, [list(d) for d in ds])
        elif c["t"] == "range":
            k = c["index"]
            local_rows(ref, [dict(c, index=None)], lp, k*n, n)
    return lp.solve(cost)[:2]


def vd_values(c, items):
    for d in differences(c, items):
        d = np.atleast_1d(d)
        d = np.abs(d) if c["abs"] else d
        yield float(d.sum() if c["norm"] == "one" else d.max())


def solve_value(loc, glob, u):
    v = 0.
    for k, cs in enumerate(loc):
        for c in cs:
            if c["t"] == "vd" and c.get("weight"):
                v += c["weight"]*sum(vd_values(c, list(u[k])))
    for c in glob:
        if c["t"] == "vd" and c.get("weight"):
            v += c["weight"]*sum(vd_values(c, list(u)))
    return v


def vd_violation(c, u):
    w = 0.
    for v in vd_values(c, list(u)):
        if c.get("max") is not None:
            w = max(w, v-c["max"])
        if c.get("min") is not None:
            w = max(w, c["min"]-v)
    return w


def solve_feasibility(ref, loc, glob, u):
    w = 0.
    for k, cs in enumerate(loc):
        w = max(w, feasibility(ref, cs, u[k]))
        for c in cs:
            if c["t"] == "vd":
                w = max(w, vd_violation(c, u[k]))
    for c in glob:
        if c["t"] == "vd":
            w = max(w, vd_violation(c, u))
        elif c["t"] == "range":
            w = max(w, feasibility(ref, [dict(c, index=None)],
                                   u[c["index"]]))
    return w


# ------------------------------------------------------------ worlds

def gen_els(rng):
    """a patterned electrode array"""
    k = rng.random()
    if k < .6:
        m = rng.choice([2, 3, 3, 4])
        w = rng.choice([.6, 1.])
        return [{"t": "P", "paths": [[[x, y], [x+w, y], [x+w, y+w],
                                      [x, y+w]]],
                 "cover_nmax": 0, "cover_height": 50.}
                for x in [(i-m/2.)*w for i in range(m)]
                for y in [(i-m/2.)*w for i in range(m)]]
    if k < .8:
        return [{"t": "Q", "points": [[rnd(rng, -1.5, 1.5),
                                       rnd(rng, -1.5, 1.5)]],
                 "areas": [rnd(rng, .2, 1)], "cover_nmax": 0,
                 "cover_height": 50.} for _ in range(rng.randint(4, 9))]
    return [world.gen_spec(rng, "PQH", 3) for _ in range(rng.randint(4, 7))]


class Bench(object):
    """Systems and constraint objects shared by a sequence of operations."""

    def __init__(self, plan):
        C = world.classes()
        self.specs = [list(s) for s in plan["systems"]]
        self.ctrs = [dict(c) for c in plan["ctrs"]]
        self.objs = [make(c) for c in self.ctrs]
        self.lists = {}
        self.systems = []
        for s in self.specs:
            self.systems.append(C.System([C.Faulty(world.make_inner(
                i, name="e"), name="e") for i in s]))

    def edit(self, o):
        k = o[0]
        if k == "setval":
            c, ob = self.ctrs[o[1]], self.objs[o[1]]
            if c["t"] not in ("pot", "multi"):
                return
            c[o[2]] = o[3]
            setattr(ob, o[2], o[3])
        elif k == "move":
            c, ob = self.ctrs[o[1]], self.objs[o[1]]
            if c["t"] == "pot":
                c["x"] = list(o[2])
                if o[3]:
                    ob.x[...] = o[2]
                else:
                    ob.x = np.array(o[2], float)
        elif k == "weight":
            c, ob = self.ctrs[o[1]], self.objs[o[1]]
            if c["t"] == "multi" and c["c"]:
                i = o[2] % len(c["c"])
                c["c"] = [dict(a) for a in c["c"]]
                c["c"][i]["value"] = o[3]
                ob.components[i].value = o[3]
        elif k == "geom":
            s = self.specs[o[1]]
            i = o[2] % len(s)
            s[i] = o[3]
            e = list(self.systems[o[1]])[i]
            e.inner = world.make_inner(o[3], name="e")
        elif k == "swap":
            s, S = self.specs[o[1]], self.systems[o[1]]
            i, j = o[2] % len(s), o[3] % len(s)
            s[i], s[j] = s[j], s[i]
            S[i], S[j] = S[j], S[i]
        else:
            raise HarnessError(k)

    def ref(self, si):
        return RefSystem(self.specs[si])

    def list(self, part, ids):
        """callers pass the same list again"""
        k = part, tuple(ids)
        if k not in self.lists:
            self.lists[k] = [self.objs[i] for i in ids]
        return self.lists[k]

    def call(self, o):
        """run the operation on the shared objects"""
        import contextlib
        import io
        S = self.systems[o["sys"]]
        ls = self.list
        kw = dict(o["opts"])
        with contextlib.redirect_stdout(io.StringIO()):
            if o["op"] == "optimize":
                return S.optimize(ls("c", o["ctrs"]),
                                  verbose=o["verbose"], **kw)
            if o["op"] == "solve":
                return S.solve([ls("c", l) for l in o["local"]],
                               ls("c", o["glob"]),
                               verbose=o["verbose"], **kw)
            if o["op"] == "shims":
                return S.shims([(np.array(x), rot(r), d)
                                for x, r, d in o["xcd"]],
                               ls("o", o["obj"]),
                               None if o["ctrs"] is None else
                               ls("c", o["ctrs"]), **kw)
        raise HarnessError(o["op"])


OPTS = [{}, {}, {}, {}, {"maxiters": 3}, {"abstol": 1e-3, "reltol": 1e-3},
        {"feastol": 1e-4}, {"maxiters": 100}, {"maxiters": -1},
        {"abstol": 1e-9}, {"refinement": 2}]
ASYNC = ["KeyboardInterrupt", "MemoryError", "InjectedBase"]
EXC = ["Injected", "ValueError", "MemoryError", "KeyboardInterrupt",
       "InjectedBase", "FloatingPointError", "TypeError"]


def gen_world(rng):
    systems = [gen_els(rng) for _ in range(rng.choice([1, 1, 2]))]
    nmin = min(map(len, systems))
    ctrs = []
    for _ in range(rng.randint(1, 3)):
        ctrs.append(gen_pot(rng, value=rng.choice([0, 1, 1, 1., -1, .5])))
    for _ in range(rng.randint(0, 2)):
        ctrs.append(gen_pot(rng))
    for _ in range(rng.randint(0, 1)):
        ctrs.append(gen_multi(rng, value=rng.choice([0, 1, -.5])))
    for _ in range(rng.randint(0, 1)):
        ctrs.append(gen_multi(rng, **{rng.choice(["min", "max", "offset"]):
                                      limit(rng)}))
    ctrs.append({"t": "range", "min": -1, "max": 1, "index": None})
    if rng.random() < .3:
        ctrs[-1].update(rng.choice([{"min": 0}, {"max": 0}, {"min": None},
                                    {"max": None}, {"min": 0, "max": 3},
                                    {"min": -.2, "max": .7}]))
    for _ in range(rng.randint(0, 2)):
        ctrs.append(gen_range(rng, nmin))
    for _ in range(rng.randint(1, 2)):
        ctrs.append(gen_vd(rng, nmin))
    return systems, ctrs


def gen_op(rng, systems, ctrs):
    ids = {t: [i for i, c in enumerate(ctrs) if c["t"] == t]
           for t in ("pot", "multi", "range", "vd")}
    val = [i for i, c in enumerate(ctrs) if "value" in c]
    con = [i for i in ids["pot"] + ids["multi"] if i not in val]
    op = rng.choice(["optimize"]*5 + ["solve"]*3 + ["shims"]*2)
    o = {"op": op, "sys": rng.randrange(len(systems)),
         "opts": rng.choice(OPTS), "verbose": rng.random() < .2,
         "fault": None}

    def some(l, p):
        return [i for i in l if rng.random() < p]
    rg = [ids["range"][0]] if rng.random() < .9 else []
    if op == "optimize":
        a = some(val, .7) or [rng.choice(val)]
        o["ctrs"] = a + some(con, .4) + rg + some(ids["range"][1:], .3)
        rng.shuffle(o["ctrs"])
    elif op == "solve":
        m = rng.choice([1, 2, 3, 3, 4])
        # (mirrored ends make sense for a sequence of locations only)
        loc = [i for i in ids["vd"] if not ctrs[i]["smooth"]]
        o["local"] = [some(con, .7) + some(loc, .7) + rg + some(
            ids["range"][1:], .2) for _ in range(m)]
        o["glob"] = some(ids["vd"], .6) if m > 2 else []
    else:
        k = rng.randint(0, 3)
        o["xcd"] = [[gen_x(rng), rng.choice([None, rnd(rng, -3, 3)]),
                     rng.choice(DERIVS[1:9])] for _ in range(k)]
        o["obj"] = some(val, .5)
        if not k and not o["obj"]:
            o["obj"] = val[:1]
        o["ctrs"] = None if rng.random() < .5 else rg + some(con, .1)
    return o


def gen_fault(rng, o):
    r = rng.random()
    if r < .45:
        return ["solver", rng.choice([0, 0, 1, 2]), rng.choice([
            ["raise", rng.choice(EXC)], ["raise-after", rng.choice(EXC)],
            ["status", "primal infeasible"], ["lost", "dual infeasible"],
            ["status", "unknown"], ["maxiters", rng.randint(1, 6)],
            ["lost", "primal infeasible"]])]
    if r < .75:
        return ["int", round(rng.random(), 4), rng.choice(ASYNC)]
    return ["el", rng.randint(0, 9), rng.choice([0, 0, 1, 2, 5]),
            rng.choice(["before", "mid", "after", "nan"]), rng.choice(EXC)]


def gen_edit(rng, systems, ctrs):
    k = rng.choice(["setval", "setval", "move", "weight", "geom", "swap"])
    ci = rng.randrange(len(ctrs))
    if k == "setval":
        cand = [i for i, c in enumerate(ctrs) if c["t"] in ("pot", "multi")]
        ci = rng.choice(cand)
        keys = [a for a in ("value", "min", "max", "offset") if a in ctrs[ci]]
        return [k, ci, rng.choice(keys), rng.choice([1, -1., .5, 0, 2.])
                if "value" in keys else limit(rng)]
    if k == "move":
        return [k, ci, gen_x(rng), rng.random() < .5]
    if k == "weight":
        return [k, ci, rng.randint(0, 2), rng.choice([1, -1, .5])]
    s = rng.randrange(len(systems))
    if k == "geom":
        return [k, s, rng.randint(0, 15), world.gen_spec(rng, "PQ", 3)]
    return [k, s, rng.randint(0, 15), rng.randint(0, 15)]


def arm(bench, o, sim):
    f = o["fault"]
    S = bench.systems[o["sys"]]
    if f and f[0] == "el":
        list(S)[f[1] % len(S)].arm({f[2]: (f[3], f[4])}, sim)


def disarm(bench):
    for S in bench.systems:
        for e in list(S):
            e.disarm()


def attempt(bench, o, sim, faulty=True):
    """(result, exception, simulated solver, interrupter)"""
    from .solver import SimSolver
    f = o["fault"] if faulty else None
    it = None
    if f and f[0] == "int":
        saved = sim.faults.copy(), sim.nontrivial
        with SimSolver(sim):
            tot = core.count_lines(lambda: bench.call(o))
        sim.faults, sim.nontrivial = saved
        if tot:
            it = core.Interrupter(1 + int(f[1]*tot), f[2])
    if faulty:
        arm(bench, o, sim)
    ss = SimSolver(sim, {f[1]: f[2]} if f and f[0] == "solver" else None)
    res = err = None
    try:
        with ss:
            res = it.run(lambda: bench.call(o)) if it else bench.call(o)
    except BaseException as e:
        err = e
    disarm(bench)
    if it and it.fired:
        sim.fault("interrupt")
    return res, err, ss, it
