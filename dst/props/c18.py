"""Geometry processing never loses an electrode or its input."""
import copy
import random
import warnings

import numpy as np

from .. import core, world
from ..core import Interrupter, count_lines, is_injected, make_exc

ID = "C18"
RUNS = {"quick": 4000, "thorough": 40000}
BATCH = 10
RULE = ("A run draws electrodes as sets of cells of a grid (with holes, "
        "islands in holes, corner contacts, several pieces, overlaps, equal "
        "and empty names, any length scale) and applies a random chain of "
        "geometry operations; a model applies the same operations to the "
        "cell sets. Geometry kernel calls fail at any call, callbacks fail, "
        "generators are abandoned, and operations are interrupted at any "
        "executed line. Non-trivial: a fault fired.")
REAL = ["Polygons.from_system, to_system, from_data, remove_overlaps, "
        "add_gaps, unify, unify_by_name, simplify, filter, smooth, "
        "assign_to_pad, gaps_union, restrict, within, validate",
        "shapely/GEOS under a failing wrapper"]
STUB = ["failing wrappers of geometry kernel calls"]
STATE_MEASURE = ("distinct (operation, electrodes, holes, pieces, fault, "
                 "outcome)")
FAULTS = ["kernel-raises", "callback-raises", "interrupt", "abandoned"]
PROBES = ["holes", "islands", "corner-contact", "multi-piece", "overlapping",
          "same-names", "unnamed", "emptied", "tiny-scale", "pads-matched",
          "square-pads",
          "pads-unmatched", "chained", "repeated-after-fault",
          "non-polygon-skipped", "reversed-orientation", "unmerged",
          "gaps-emptied", "invalid-reported", "filtered-hole",
          "filtered-polygon", "data-named", "data-partly-named",
          "onion", "rotated", "smoothed"]
ASSUMPTIONS = ["a kernel that answers wrongly is not simulated, one that "
               "fails is",
               "an electrode without any area may be dropped by a "
               "conversion from a system"]
SHRINK = ("ops", "els")
EXC = ["Injected", "ValueError", "MemoryError", "KeyboardInterrupt",
       "InjectedBase", "RuntimeError", "TopologicalError"]
ASYNC = ["KeyboardInterrupt", "MemoryError", "InjectedBase"]
W, H = 9, 8
KERNEL = ["intersection", "difference", "union", "buffer", "simplify",
          "contains", "intersects", "unary_union", "polygonize"]


def rect(rng, w=W, h=H):
    x0, y0 = rng.randint(0, w-1), rng.randint(0, h-1)
    x1, y1 = rng.randint(x0+1, w), rng.randint(y0+1, h)
    return [x0, y0, x1, y1]


def gen_cells(rng):
    """list of [sign, rectangle]"""
    r = rng.random()
    if r < .06:
        # a plate with many holes
        x0, y0 = rng.randint(0, W-6), rng.randint(0, H-6)
        x1, y1 = rng.randint(x0+6, W), rng.randint(y0+6, H)
        cells = [(x, y) for x in range(x0+1, x1-1, 2)
                 for y in range(y0+1, y1-1, 2)]
        return [[1, [x0, y0, x1, y1]]] + [
            [-1, [x, y, x+1, y+1]] for x, y in rng.sample(cells, rng.randint(
                min(len(cells), 3), len(cells)))]
    if r < .45:
        return [[1, rect(rng)] for _ in range(rng.choice([1, 1, 2, 3]))]
    if r < .7:
        # ring, maybe with an island
        x0, y0 = rng.randint(0, W-5), rng.randint(0, H-5)
        x1, y1 = rng.randint(x0+3, W), rng.randint(y0+3, H)
        out = [[1, [x0, y0, x1, y1]], [-1, [x0+1, y0+1, x1-1, y1-1]]]
        if x1-x0 >= 5 and y1-y0 >= 5:
            out.append([1, [x0+2, y0+2, x1-2, y1-2]])
        if x1-x0 >= 7 and y1-y0 >= 7:
            out.append([-1, [x0+3, y0+3, x1-3, y1-3]])
        if rng.random() < .3:
            out.insert(0, [1, rect(rng)])
        return out
    if r < .85:
        return [[1, rect(rng)], [-1, rect(rng)], [1, rect(rng)]]
    return [[1, [x, y, x+1, y+1]] for x, y in set(
        (rng.randint(0, W-1), rng.randint(0, H-1))
        for _ in range(rng.randint(1, 12)))]


def gen(rng, idx):
    names = rng.choice([["a", "b", "c", "d", "e"], ["a", "b", "a", "c", "b"],
                        ["a", "a", "b", "b", "b"],
                        ["", "a", "", "b", "a"], ["rf", "dc1", "dc2", "x",
                                                  "µ"]])
    els = [[names[i], gen_cells(rng)] for i in range(
        rng.choice([1, 2, 3, 3, 4, 5]))]
    ops = []
    rot = rng.choice([0., 0., 0., 0., 0., .3, -.77, 2.])
    for _ in range(rng.randint(1, 5)):
        k = rng.choice(["system", "overlaps", "overlaps", "gaps", "gaps0",
                        "byname", "unify", "simplify", "simplify0", "filter",
                        "filter", "smooth", "pads", "pads", "gapsunion",
                        "restrict", "within", "validate", "fromdata"])
        o = {"op": k, "fault": None}
        if k == "gaps":
            o["g"] = rng.choice([.1, .3, .7, 1.2])
        if k == "simplify":
            o["g"], o["topo"] = rng.choice([.01, .4, .4, 1.5]), rng.random() < .5
        if k == "filter":
            o["deep"] = rng.random() < .6
            o["test"] = rng.choice([None, "big", "named", "all", "none"])
            o["min"] = rng.choice([1.5, 4.5, 9.5, 20.5])
            o["call"] = rng.randint(0, 4)
        if k == "pads":
            o["pads"] = [[rng.randint(-1, 2*W+1)/2., rng.randint(
                -1, 2*H+1)/2.] for _ in range(rng.randint(0, 7))]
            if rot:
                # off the boundaries
                o["pads"] = [[x + .2, y + .3] for x, y in o["pads"]]
            o["stop"] = rng.choice([None, None, 0, 1, 2])
            if rng.random() < .4:       # pads around a square
                o["square"] = [rng.choice([.5, 1, 1.5, 2.]), rng.choice(
                    [3, 4., 5, 6.5, 8]), rng.random() < .5, rng.randint(0, 3)]
                if rng.random() < .2:
                    o["square"] = rng.choice([[10., 200.], []])
        if k == "smooth":
            o["kw"] = rng.choice([{}, {}, {"k": 3}, {"knots": 41}, {
                "smoothing": rng.choice([1e-3, .02, .3, None])}])
        if k == "restrict":
            o["rect"] = rect(rng)
        if k == "within":
            o["edge"] = rng.choice([2, 4, 6, 40])
        if k == "fromdata":
            o["named"] = rng.choice([None, 0, 1, .5, .5])
            o["seed"] = rng.randrange(1000)
        f = rng.random()
        if f < .25:
            o["fault"] = ["kernel", round(rng.random(), 4), rng.choice(EXC)]
        elif f < .45:
            o["fault"] = ["int", round(rng.random(), 4), rng.choice(ASYNC)]
        elif f < .65 and k == "filter" and o["test"]:
            o["fault"] = ["call", rng.choice(EXC)]
        if k == "system":
            o["shuffle"] = rng.randrange(99)
        if k == "validate":
            o["bname"] = rng.random() < .5
            o["bad"] = rng.choice([None, None, 0, 1, 7])
        ops.append(o)
    return {"els": els, "ops": ops, "flip": rng.random() < .3,
            "rot": rot, "s": rng.choice([1., 1., .5, 3., 1e-3, 4e-5, 1e-6]),
            "at": [rng.choice([0, -3, 2]), rng.choice([0, -3, 1])],
            "multi": rng.random() < .5, "unmerged": rng.random() < .15}


def shrink(plan):
    for k, o in enumerate(plan["ops"]):
        if o["fault"]:
            c = copy.deepcopy(plan)
            c["ops"][k]["fault"] = None
            yield c
    for k, e in enumerate(plan["els"]):
        for i in range(len(e[1])):
            if len(e[1]) > 1:
                c = copy.deepcopy(plan)
                del c["els"][k][1][i]
                yield c
    for key, v in (("flip", False), ("rot", 0.), ("s", 1.), ("at", [0, 0]),
                   ("multi", False), ("unmerged", False)):
        if plan[key] != v:
            c = copy.deepcopy(plan)
            c[key] = v
            yield c


# ----------------------------------------------------------- model

def cells(spec):
    s = set()
    for sign, (x0, y0, x1, y1) in spec:
        r = set((x, y) for x in range(x0, x1) for y in range(y0, y1))
        s = s | r if sign > 0 else s - r
    return frozenset(s)


def components(c, diag=False):
    """connected components"""
    c, out = set(c), []
    nb = [(1, 0), (-1, 0), (0, 1), (0, -1)]
    if diag:
        nb = nb + [(1, 1), (1, -1), (-1, 1), (-1, -1)]
    while c:
        todo = [c.pop()]
        comp = set(todo)
        while todo:
            x, y = todo.pop()
            for dx, dy in nb:
                n = x+dx, y+dy
                if n in c:
                    c.remove(n)
                    comp.add(n)
                    todo.append(n)
        out.append(frozenset(comp))
    return out


def holes(comp):
    """holes of one component: components of its outside, less the outer.
    A ring touching itself at a corner: the outside is connected through
    corners only where the inside is not"""
    full = set((x, y) for x in range(-1, W+1) for y in range(-1, H+1))
    outs = components(full - comp)
    return [o for o in outs if (-1, -1) not in o]


class Grid(object):
    def __init__(self, plan):
        self.s, self.at, self.flip = plan["s"], plan["at"], plan["flip"]
        a = plan.get("rot", 0.)
        self.c, self.d = (np.cos(a), np.sin(a)) if a else (1., 0.)

    def xy(self, x, y):
        x, y = (x + self.at[0])*self.s, (y + self.at[1])*self.s
        return x*self.c - y*self.d, x*self.d + y*self.c

    def box(self, x0, y0, x1, y1):
        from shapely import geometry
        p = [self.xy(x0, y0), self.xy(x1, y0), self.xy(x1, y1),
             self.xy(x0, y1)]
        return geometry.Polygon(p[::-1] if self.flip else p)

    def geom(self, c, multi, unmerged=False):
        from shapely import geometry, ops
        b = [self.box(x, y, x+1, y+1) for x, y in sorted(c)]
        if unmerged:
            return geometry.MultiPolygon(b)
        g = ops.unary_union(b)
        if self.flip and not g.is_empty:
            g = geometry.MultiPolygon([geometry.polygon.orient(i, -1) for i
                                       in getattr(g, "geoms", [g])])
            if len(g.geoms) == 1:
                g = g.geoms[0]
        if multi and not hasattr(g, "geoms"):
            g = geometry.MultiPolygon([] if g.is_empty else [g])
        return g

    def read(self, g):
        """cells covered by a geometry and its area in cells"""
        from shapely import geometry
        pieces = parts(g)
        x, y = np.mgrid[:W, :H] + .5
        x, y = self.xy(x, y)
        got = np.zeros((W, H), bool)
        for i in pieces:
            # also for invalid ones, which the kernel refuses
            inside = np.zeros((W, H), bool)
            for r in [i.exterior] + list(i.interiors):
                for (a, b), (c, d) in zip(r.coords[:-1], r.coords[1:]):
                    cross = (b > y) != (d > y)
                    with np.errstate(all="ignore"):
                        inside ^= cross & (x < a + (y-b)*(c-a)/(d-b))
            got |= inside
        got = set(zip(*(i.tolist() for i in np.nonzero(got))))
        return frozenset(got), sum(i.area for i in pieces)/self.s**2


# ----------------------------------------------------------- faults

class Kernel(object):
    """Fails at the n-th geometry kernel call"""

    def __init__(self, at=None, exc=None, sim=None):
        self.at, self.exc, self.sim = at, exc, sim
        self.n, self.fired = 0, 0
        self.depth = 0

    def make(self):
        from shapely import errors
        if self.exc == "TopologicalError":
            e = errors.TopologicalError("injected")
            e.dst_injected = True
            return e
        return make_exc(self.exc, "kernel")

    def wrap(self, f):
        def g(*a, **k):
            # only calls made by the code under test
            if self.depth == 0:
                self.n += 1
                if self.at is not None and self.n - 1 == self.at:
                    self.fired += 1
                    if self.sim is not None:
                        self.sim.fault("kernel-raises")
                    raise self.make()
            self.depth += 1
            try:
                return f(*a, **k)
            finally:
                self.depth -= 1
        return g

    def __enter__(self):
        from shapely import ops
        from shapely.geometry import base
        self.saved = []
        for n in KERNEL:
            o = base.BaseGeometry if hasattr(base.BaseGeometry, n) else ops
            self.saved.append((o, n, o.__dict__[n]))
            setattr(o, n, self.wrap(getattr(o, n)))
        return self

    def __exit__(self, *a):
        for o, n, v in self.saved:
            setattr(o, n, v)


def quiet(fn):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return fn()


def snap(p):
    return [(n, id(g), g.wkb) for n, g in p]


def execute(plan, sim):
    import shapely
    from electrode.polygons import Polygons
    from shapely import geometry
    warnings.simplefilter("ignore")
    g = Grid(plan)
    model = [(n, cells(c)) for n, c in plan["els"]]
    model = [(n, c) for n, c in model if c]
    if not model:
        return
    unm = plan["unmerged"]
    cur = Polygons((n, g.geom(c, plan["multi"], unm)) for n, c in model)
    reach(model, plan, sim)
    fault = False
    for k, o in enumerate(plan["ops"]):
        where = "op %d %s" % (k, o["op"])
        if unm and o["op"] not in ("unify", "byname", "system"):
            continue
        if plan.get("rot") and o["op"] not in (
                "system", "gaps", "gaps0", "simplify", "simplify0", "filter",
                "smooth", "pads", "validate"):
            # edges that coincide but for rounding: the kernel's answers
            # are at times plainly wrong
            continue
        before = snap(cur)
        res, err, fired = perform(plan, g, o, cur, model, sim)
        sim.check(snap(cur) == before, "input-changed", lambda: "%s: the "
                  "electrodes it was called on have changed" % where)
        sim.log(o["op"], type(err).__name__ if err else "ok", len(model))
        sim.state(o["op"], len(model), sum(len(holes(i)) for _, c in model
                                           for i in components(c)),
                  max(len(components(c)) for _, c in model) if model else 0,
                  o["fault"][0] if o["fault"] else "",
                  type(err).__name__ if err else "ok")
        if fired:
            sim.check(err is not None, "failure-swallowed", lambda: "%s: "
                      "succeeded after %s" % (where, o["fault"]))
            sim.check(is_injected(err), "failure-replaced", lambda:
                      "%s: %s" % (where, core.short_tb(err)))
            # repeated, as if nothing had happened
            o = dict(o, fault=None)
            res, err, fired = perform(plan, g, o, cur, model, sim)
            sim.probe("repeated-after-fault")
        sim.check(err is None, "unexpected-failure", lambda: "%s: %s" % (
            where, core.short_tb(err)))
        new = judge(plan, g, o, cur, model, res, sim, where)
        if new is not None:
            sim.check(res is not cur, "same-object", where)
            sim.check(isinstance(res, Polygons), "same-object", where)
            if plan.get("rot"):
                # the kernel leaves slivers there: not used on
                continue
            cur, model = res, new
            if k:
                sim.probe("chained")
        unm = False


def reach(model, plan, sim):
    for n, c in model:
        comp = components(c)
        if len(comp) > 1:
            sim.probe("multi-piece")
            if len(components(c, True)) < len(comp):
                sim.probe("corner-contact")
        if any(holes(i) for i in comp):
            sim.probe("holes")
            if any(any(j <= h for h in holes(i)) for i in comp for j in comp):
                sim.probe("islands")
                if any(holes(j) for i in comp for h in holes(i) for j in comp
                       if j <= h):
                    sim.probe("onion")
        if not n:
            sim.probe("unnamed")
    names = [n for n, _ in model]
    if len(set(names)) < len(names):
        sim.probe("same-names")
    if sum(len(c) for _, c in model) > len(frozenset().union(
            *[c for _, c in model])):
        sim.probe("overlapping")
    for key, name in (("flip", "reversed-orientation"),
                      ("unmerged", "unmerged"), ("rot", "rotated")):
        if plan[key]:
            sim.probe(name)
    if plan["s"] < 1e-2:
        sim.probe("tiny-scale")


def make_test(g, o, sim=None, exc=None):
    n = [0]

    def test(name, b):
        from shapely import geometry
        n[0] += 1
        if exc is not None and n[0] - 1 == o["call"]:
            sim.fault("callback-raises")
            raise exc
        if o["test"] == "big":
            if not isinstance(b, geometry.Polygon):
                b = geometry.Polygon(b)
            return b.area/g.s**2 > o["min"]
        if o["test"] == "named":
            return name > "a"
        return o["test"] == "all"
    return test


def action(plan, g, o, cur, sim, exc):
    """the call"""
    from electrode.polygons import Polygons
    k = o["op"]
    if k == "system":
        def f():
            from electrode import System, PointPixelElectrode
            s = cur.to_system()
            f.system = s
            for e in s:
                # the paths of an electrode have no order
                random.Random(o["shuffle"]).shuffle(e.paths)
            t = System(list(s))
            t.insert(0, PointPixelElectrode(name="p", points=[[0, 0, 0.]],
                                            areas=[1.]))
            return Polygons.from_system(t)
        return f
    if k == "fromdata":
        polys = []
        for n, p in cur:
            for i in getattr(p, "geoms", [p]):
                if i.area:
                    polys.append((n, np.array(i.exterior.coords).tolist()))
        kw = {"edge": 400.*g.s, "buffer": 1e-10*g.s}
        if o["named"] is not None:
            r = random.Random(o["seed"])
            kw["names"] = [("pad%d" % i, tuple(
                np.array(p.representative_point().coords)[0]))
                for i, (n, p) in enumerate(cur)
                if p.area and r.random() < o["named"]]
            r.shuffle(kw["names"])

        def f():
            return Polygons.from_data(polys, **kw)
        f.polys = polys
        f.kw = kw
        return f
    if k == "filter":
        t = make_test(g, o, sim, exc) if o["test"] else None
        return lambda: cur.filter(t, deep=o["deep"])
    if k == "pads":
        def f():
            if o.get("square") is not None:
                from electrode.polygons import square_pads
                got = square_pads(*o["square"])
                want = square(*o["square"])
                sim.check(np.shape(got) == np.shape(want) and bool(
                    np.all(np.abs(got - want) < 1e-9)), "wrong-pads",
                    lambda: "pads around a square %s: %s, expected %s" % (
                        o["square"], got, want))
                sim.probe("square-pads")
                # (around the electrodes, off their boundaries)
                o["pads"] = [[x + W/2. + .2, y + H/2. + .3] for x, y in want]
            pads = [g.xy(*i) for i in o["pads"]]
            it = cur.assign_to_pad(pads)
            if o["stop"] is None:
                return list(it)
            r = [i for i, _ in zip(it, range(o["stop"]))]
            it.close()
            sim.fault("abandoned")
            return None
        return f
    return {
        "overlaps": lambda: cur.remove_overlaps(),
        "gaps": lambda: cur.add_gaps(o["g"]*g.s),
        "gaps0": lambda: cur.add_gaps(),
        "byname": lambda: cur.unify_by_name(),
        "unify": lambda: cur.unify(),
        "simplify": lambda: cur.simplify(o["g"]*g.s, o["topo"]),
        "simplify0": lambda: cur.simplify(),
        "smooth": lambda: smooth(cur, g, o),
        "gapsunion": lambda: cur.gaps_union(),
        "restrict": lambda: cur.restrict(g.box(*o["rect"])),
        "within": lambda: cur.within(o["edge"]*g.s),
        "validate": lambda: validate(cur, g, o),
    }[k]


def bname(cur, o):
    return cur[-1][0] if cur and o["bname"] else "bowtie"


def validate(cur, g, o):
    from electrode.polygons import Polygons
    from shapely import geometry
    if o["bad"] is None:
        return cur.validate()
    p = Polygons(cur)
    p.insert(o["bad"], (bname(cur, o), geometry.Polygon([
        g.xy(0, 0), g.xy(1, 1), g.xy(1, 0), g.xy(0, 1)])))
    try:
        p.validate()
    except ValueError as e:
        if is_injected(e):
            raise
        return str(e)
    return None


def perform(plan, g, o, cur, model, sim):
    f = o["fault"]
    exc = None
    it = None
    ker = Kernel()
    if f and f[0] == "call" and o["op"] == "filter":
        exc = make_exc(f[1] if f[1] != "TopologicalError" else "Injected",
                       "callback")
    fn = action(plan, g, o, cur, sim, exc)
    dry = action(plan, g, o, cur, core.Sim(), None)
    if f and f[0] == "int":
        n = count_lines(lambda: quiet(dry))
        if n:
            it = Interrupter(1 + int(f[1]*n), f[2])
    if f and f[0] == "kernel":
        with Kernel() as c:
            try:
                quiet(dry)
            except Exception:
                pass
        if c.n:
            ker = Kernel(int(f[1]*c.n), f[2], sim)
    before = sim.faults["callback-raises"]
    res = err = None
    with ker:
        try:
            res = quiet((lambda: it.run(fn)) if it else fn)
        except BaseException as e:
            err = e
    if it and it.fired:
        sim.fault("interrupt")
    fired = bool(ker.fired or (it and it.fired)
                 or sim.faults["callback-raises"] > before)
    if err is None and o["op"] == "system":
        o["_system"] = fn.system
    if o["op"] == "fromdata":
        o["_polys"], o["_kw"] = fn.polys, fn.kw
    return res, err, fired


# ----------------------------------------------------------- judging

def smooth(cur, g, o):
    kw = dict({"smoothing": 0}, **o.get("kw", {}))
    if kw["smoothing"]:
        kw["smoothing"] = kw["smoothing"]*g.s**2
    if kw["smoothing"] is None:
        del kw["smoothing"]
    try:
        return cur.smooth(**kw)
    except AssertionError:
        if kw.get("smoothing") == 0:
            raise
        return None    # no such spline


def compare(g, res, want, sim, where, optional=False):
    """`res` has the electrodes `want`"""
    if optional and len(res) != len(want):
        want = [i for i in want if i[1]]
    sim.check([n for n, _ in res] == [n for n, _ in want], "names", lambda:
              "%s: electrodes %s, expected %s" % (
                  where, [n for n, _ in res], [n for n, _ in want]))
    for (n, p), (_, c) in zip(res, want):
        got, area = g.read(p)
        sim.check(got == c, "area", lambda: "%s: electrode %r covers %s, "
                  "expected %s" % (where, n, sorted(got), sorted(c)))
        sim.check(abs(area - len(c)) < 1e-6*(len(c) + 1), "area", lambda:
                  "%s: electrode %r has area %s, expected %s" % (
                      where, n, area, len(c)))
    if any(not c for _, c in want):
        sim.probe("emptied")
    return [(n, c) for (n, _), (_, c) in zip(res, want)]


def judge(plan, g, o, cur, model, res, sim, where):
    """compares the result with the model; returns the new model if the
    result is to be used on"""
    from shapely import geometry, ops
    k = o["op"]
    if k == "system":
        s = o.pop("_system")
        sim.check([e.name for e in s] == [n for n, _ in model], "names",
                  lambda: "%s: system has %s" % (where, [e.name for e in s]))
        for e, (n, c) in zip(s, model):
            a = 0.
            for p in e.paths:
                p = np.asarray(p)/g.s
                q = np.roll(p, -1, 0)
                a += .5*np.sum(p[:, 0]*q[:, 1] - p[:, 1]*q[:, 0])
            sim.check(abs(a - len(c)) < 1e-6*(len(c)+1), "area", lambda:
                      "%s: electrode %r of the system has area %s, expected "
                      "%s" % (where, n, a, len(c)))
            check_potential(g, e, c, sim, where)
        sim.probe("non-polygon-skipped")
        return compare(g, res, model, sim, where, optional=True)
    if k in ("gaps0", "simplify0", "unify"):
        return compare(g, res, model, sim, where)
    if k == "overlaps":
        acc, want = frozenset(), []
        for n, c in model:
            want.append((n, c - acc))
            acc = acc | c
        return compare(g, res, want, sim, where)
    if k == "byname":
        d = {}
        for n, c in model:
            d[n] = d.get(n, frozenset()) | c
        return compare(g, res, list(d.items()), sim, where)
    if k in ("restrict", "within"):
        if k == "restrict":
            x0, y0, x1, y1 = o["rect"]
        else:
            e = o["edge"]/2.
            x0, x1 = -e - g.at[0], e - g.at[0]
            y0, y1 = -e - g.at[1], e - g.at[1]
        want = [(n, frozenset(i for i in c if x0 <= i[0] < x1
                              and y0 <= i[1] < y1)) for n, c in model]
        return compare(g, res, want, sim, where)
    if k == "smooth":
        kw = o.get("kw", {})
        if res is None:
            return None
        if "knots" in kw:
            # points on the outline
            sim.check([n for n, _ in res] == [n for n, _ in model], "names",
                      where)
            for (n, p), (_, q) in zip(res, cur):
                for a, b in zip(parts(p), parts(q)):
                    c = a.exterior.coords
                    sim.check(len(c) in (41, 42) and max(b.exterior.distance(
                        geometry.Point(x)) for x in c) < 1e-6*g.s, "outline",
                        lambda: "%s: electrode %r: %s" % (where, n, list(c)))
            return None
        if "smoothing" in kw:
            sim.probe("smoothed")
            sim.check([n for n, _ in res] == [n for n, _ in model], "names",
                      where)
            s = 1. if kw["smoothing"] is None else kw["smoothing"]*g.s**2
            for (n, p), (_, q) in zip(res, cur):
                p, q = parts(p), parts(q)
                if len(p) != len(q):
                    continue    # smoothed away
                for a, b in zip(p, q):
                    c = b.exterior.coords
                    d = sum(a.exterior.distance(geometry.Point(x))**2
                            for x in c[1:])
                    sim.check(d <= s*len(c)*1.01, "outline", lambda:
                              "%s: electrode %r: the squares of the "
                              "deviations sum up to %s, allowed are %s" % (
                                  where, n, d, s*len(c)))
            return None
        # an exact spline through the corners
        compare(g, res, model, sim, where)
        return None
    if k == "filter":
        return judge_filter(g, o, cur, model, res, sim, where)
    if k == "pads":
        if res is not None:
            judge_pads(g, o, cur, model, res, sim, where)
        return None
    if k == "validate":
        if o["bad"] is not None:
            sim.check(res is not None and bname(cur, o) in res, "invalid", lambda: "%s: an invalid "
                      "polygon at %d went unnoticed: %r" % (
                          where, o["bad"], res))
            sim.probe("invalid-reported")
        return None
    if k == "gaps":
        sim.check([n for n, _ in res] == [n for n, _ in model], "names",
                  lambda: "%s: %s" % (where, [n for n, _ in res]))
        d = o["g"]*g.s/2
        for (n, p), (_, q) in zip(res, cur):
            q = geometry.MultiPolygon(parts(q))
            ref = q.buffer(-d, 16)
            lo = q.buffer(-d*1.001, 16)
            hi = q.buffer(-d*.7, 16)
            sim.check(p.difference(hi).area < 1e-6*g.s**2
                      and lo.difference(p).area < 1e-6*g.s**2
                      + .3*d*d*len(lo.wkb)/16., "gap", lambda:
                      "%s: electrode %r: area %s after shrinking by %s, "
                      "expected %s" % (where, n, p.area/g.s**2, o["g"]/2,
                                       ref.area/g.s**2))
            if p.is_empty:
                sim.probe("gaps-emptied")
        return None
    if k == "simplify":
        sim.check([n for n, _ in res] == [n for n, _ in model], "names",
                  lambda: "%s: %s" % (where, [n for n, _ in res]))
        for (n, p), (_, q), (_, c) in zip(res, cur, model):
            if not c:
                continue
            if not p.area:
                sim.check(o["g"] > .4, "area", lambda: "%s: electrode %r "
                          "vanished" % (where, n))
                continue
            lines = geometry.MultiPolygon(parts(q)).boundary
            for v in vertices(p):
                sim.check(lines.distance(geometry.Point(v))
                          <= o["g"]*g.s*1.001, "moved", lambda: "%s: "
                          "electrode %r: %s is far off" % (where, n, v))
            if o["g"] <= .4:
                compare(g, [(n, p)], [(n, c)], sim, where)
        return None
    if k == "gapsunion":
        edges = set()
        for n, c in model:
            for x, y in c:
                for nb, e in (((x-1, y), (x, y, 0)), ((x+1, y), (x+1, y, 0)),
                              ((x, y-1), (x, y, 1)), ((x, y+1),
                                                      (x, y+1, 1))):
                    if nb not in c:
                        edges.add(e)
        sim.check(abs(res.length/g.s - len(edges)) < 1e-6*(len(edges)+1),
                  "gaps", lambda: "%s: boundaries of length %s, expected %s"
                  % (where, res.length/g.s, len(edges)))
        for x, y, v in sorted(edges):
            p = g.xy(x + .5*v, y + .5*(1-v))
            sim.check(res.distance(geometry.Point(p)) < 1e-9*g.s, "gaps",
                      lambda: "%s: no boundary at %s" % (where, p))
        return None
    if k == "fromdata":
        return judge_data(g, o, cur, model, res, sim, where)
    raise core.HarnessError(k)


def parts(p):
    from shapely import geometry
    return [i for i in getattr(p, "geoms", [p])
            if isinstance(i, geometry.Polygon) and i.area]


def check_potential(g, e, c, sim, where):
    """the electrode has the sum of the potentials of its cells"""
    if not c:
        return
    x = np.array([[W*.3, H*.4, .7], [W*.8, H*.1, 2.]])
    v = np.sum([cell_potential(x - [a, b, 0.]) for a, b in sorted(c)], 0)
    y = np.array(x)*g.s
    y[:, 0], y[:, 1] = g.xy(x[:, 0], x[:, 1])
    e.dc = 1.
    got = e.potential(y, 0)
    sim.check(np.all(np.isfinite(got)) and np.allclose(
        np.ravel(got), v, rtol=1e-7, atol=1e-9), "potential", lambda:
        "%s: electrode %r of the system has potential %s, its area %s" % (
            where, e.name, np.ravel(got), v))


def cell_potential(x):
    """solid angle of the unit square at the origin over 2 pi"""
    def corner(a, b, z):
        return np.arctan2(a*b, z*np.sqrt(a*a + b*b + z*z))
    a, b, z = x.T
    return (corner(1-a, 1-b, z) - corner(-a, 1-b, z) - corner(1-a, -b, z)
            + corner(-a, -b, z))/(2*np.pi)


def vertices(p):
    for i in parts(p):
        for r in [i.exterior] + list(i.interiors):
            for c in r.coords:
                yield c


def judge_filter(g, o, cur, model, res, sim, where):
    want = []
    for (n, p), (_, c) in zip(cur, model):
        keep = set()
        for comp in components(c):
            # pieces that meet at a corner stay separate polygons
            hs = holes(comp)
            ext = set(comp).union(*hs)
            if o["test"] is None:
                t = lambda a: a*g.s**2 > 1e-2
            elif o["test"] == "big":
                t = lambda a: a > o["min"]
            elif o["test"] == "named":
                t = lambda a: n > "a"
            else:
                t = lambda a: o["test"] == "all"
            if o["deep"]:
                if not t(len(ext)):
                    sim.probe("filtered-polygon")
                    continue
                k = set(ext)
                for h in hs:
                    if t(len(h)):
                        k -= h
                    else:
                        sim.probe("filtered-hole")
                keep |= k
            elif t(len(comp)):
                keep |= comp
            else:
                sim.probe("filtered-polygon")
        if keep:
            want.append((n, frozenset(keep)))
    compare_filter(g, res, want, sim, where)
    # filled holes may overlap islands: not used on
    return None


def compare_filter(g, res, want, sim, where):
    sim.check([n for n, _ in res] == [n for n, _ in want], "names", lambda:
              "%s: electrodes %s, expected %s" % (
                  where, [n for n, _ in res], [n for n, _ in want]))
    for (n, p), (_, c) in zip(res, want):
        got, _ = g.read(p)
        sim.check(got == c, "area", lambda: "%s: electrode %r covers %s, "
                  "expected %s" % (where, n, sorted(got), sorted(c)))


def square(step=10., edge=200., odd=False, start=0):
    """counter clockwise from a corner, the top left one at first"""
    n = int(edge/step)
    if odd:
        n += 1 + n % 2
    h = (edge - step)/2.
    side = [(-h, ((n-1)/2. - k)*step) for k in range(n)]
    out = []
    for i in range(4):
        c, s = [(1, 0), (0, 1), (-1, 0), (0, -1)][(start + i) % 4]
        out += [(c*x - s*y, s*x + c*y) for x, y in side]
    return np.array(out)


def judge_pads(g, o, cur, model, res, sim, where):
    sim.check(sorted(i for _, i in res) == list(range(len(model))),
              "assignment", lambda: "%s: %s of %d electrodes" % (
                  where, res, len(model)))
    if any(not p.is_empty and len(parts(p)) != len(getattr(p, "geoms", [p]))
           for n, p in cur):
        # cut down to a line or a point: may be hit or not
        return
    left = list(range(len(model)))
    want = []
    for k, (x, y) in enumerate(o["pads"]):
        # cells whose closure has the point
        cl = set((int(np.floor(x - a)), int(np.floor(y - b)))
                 for a in (0, 1e-9) for b in (0, 1e-9))
        for i in left:
            if cl & model[i][1]:
                want.append((k, i))
                left.remove(i)
                sim.probe("pads-matched")
                break
        if not left:
            break
    if left:
        sim.probe("pads-unmatched")
    want += [(None, i) for i in left]
    sim.check(res == want, "assignment", lambda: "%s: %s, expected %s" % (
        where, res, want))


def judge_data(g, o, cur, model, res, sim, where):
    from shapely import geometry
    polys, kw = o.pop("_polys"), o.pop("_kw")
    want = list(polys)
    if kw.get("names"):
        left, want = list(polys), []
        for name, xy in kw["names"]:
            for q in left:
                if geometry.Polygon(q[1]).intersects(geometry.Point(xy)):
                    want.append((name, q[1]))
                    left.remove(q)
                    sim.probe("data-named")
                    break
        if want and left:
            sim.probe("data-partly-named")
        want += left
    sim.check([n for n, _ in res] == [n for n, _ in want], "names", lambda:
              "%s: %s, expected %s" % (where, [n for n, _ in res],
                                       [n for n, _ in want]))
    for (n, p), (_, q) in zip(res, want):
        q = geometry.Polygon(q)
        sim.check(p.symmetric_difference(q).area < 1e-6*g.s**2, "area",
                  lambda: "%s: %r" % (where, n))
    return None
