"""Gridded electrodes: loaded completely or not at all, generate resumes."""
import copy
import os
import sys
import tempfile
import types

import numpy as np

from .. import core
from ..core import Interrupter, count_lines, is_injected, make_exc

ID = "C09"
RUNS = {"quick": 8000, "thorough": 250000}
BATCH = 50
RULE = ("A run stores a random potential, and mostly an independent random "
        "field, on a random grid and makes a gridded electrode of it: through "
        "a simulated vtk reader (arrays in any order among unrelated ones, "
        "flat and x fastest), a simulated boundary element result, or "
        "directly. The file may be missing or misnamed, the reader or the "
        "result may raise at any call, deliver short arrays, none, or "
        "arrays with a wrong number of components. Then a random history of "
        "generate() calls, each of which may be interrupted at any executed "
        "line or have a numpy call fail, is run on the electrode; after every "
        "step all orders present are judged, and values are read back at "
        "nodes, between and outside of them. Non-trivial: a fault fired.")
REAL = ["electrode.electrode.GridElectrode", "electrode.utils",
        "numpy.gradient", "scipy map_coordinates"]
STUB = ["tvtk StructuredPointsReader and its data set (in memory)",
        "bem result object"]
STATE_MEASURE = ("distinct (source, arrays, source fault, outcome) and "
                 "(order present, order asked for, fault, outcome)")
FAULTS = ["missing-file", "read-raises", "short-array", "no-arrays",
          "potential-lost", "bad-components", "bad-shape", "interrupt",
          "numpy-raises", "load-interrupt"]
PROBES = ["file-rewritten", "source-vtk", "source-result", "source-direct", "field-stored",
          "field-first", "other-arrays", "pondpot-skipped", "load-raises",
          "resumed", "idempotent", "partial-progress", "order-5",
          "thin-grid-raises", "outside", "accumulate", "reload",
          "two-more-orders", "derived-again", "same-data-twice"]
ASSUMPTIONS = [
    "a file whose stored field alone is lost by the reader cannot be told "
    "from a file without field",
    "second and higher derivatives may be taken of any matching lower one"]
SHRINK = ("ops", "other")
ASYNC = ["KeyboardInterrupt", "MemoryError", "InjectedBase"]
EXC = ["OSError", "Injected", "ValueError", "KeyboardInterrupt",
       "InjectedBase", "MemoryError", "RuntimeError", "AttributeError",
       "KeyError", "TypeError"]
STAGES = ["init", "update", "output", "name", "array", "to_array", "spacing",
          "origin", "dimensions", "components"]
RSTAGES = ["grid", "origin", "step", "potential", "field"]
# independent table of the harmonic derivative components
NAMES = [[""], "x y z".split(), "xx xy xz yy yz".split(),
         "xxy xxz yyz xyy xzz yzz xyz".split(),
         "xxxy xxxz xxyy xxzz xyyy xzzz yyyz yyzz yzzz".split(),
         ("xxxyy xxxyz xxxzz xxyyy xxyyz xxyzz xxzzz xyyyz xyyzz yyyzz "
          "yyzzz").split()]


def gen(rng, idx):
    src = rng.choice(["vtk", "vtk", "result", "direct"])
    dims = [rng.randint(2, 6) for _ in range(3)]
    if rng.random() < .04:
        dims[rng.randrange(3)] = 1
    field = rng.random() < .7
    arrays = ["potential"] + ["field"]*field
    if rng.random() < .3:
        arrays.reverse()
    other = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        other.append([rng.choice(["pondpot", "rf_pondpot", "charge", "Field",
                                  "potential_pondpot", "mesh", "field2",
                                  "pot"]),
                      rng.choice([1, 1, 3]), rng.randint(0, 3)])
    bad = None
    r = rng.random()
    if src == "vtk":
        if r < .2:
            bad = ["raise", rng.choice(STAGES), rng.randint(0, 2),
                   rng.choice(EXC)]
        elif r < .25:
            bad = ["missing", rng.choice(["gone", "name", "dir"])]
        elif r < .30:
            bad = ["short", rng.choice(arrays), round(rng.random(), 4)]
        elif r < .34:
            bad = ["none"]
        elif r < .38:
            bad = ["lost"]
        elif r < .43:
            bad = ["components", rng.choice(arrays), rng.choice([1, 2, 3, 5])]
    elif src == "result":
        if r < .2:
            bad = ["raise", rng.choice(RSTAGES), 0, rng.choice(EXC)]
        elif r < .3 and field:
            bad = ["shape", rng.randint(0, 2), rng.choice([-1, 1])]
        elif r < .35 and field:
            bad = ["components", "field", rng.choice([1, 2, 5])]
    if bad is None and src != "direct" and rng.random() < .15:
        bad = ["int", round(rng.random(), 5), rng.choice(ASYNC)]
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        op = {"max": rng.choice([0, 1, 2, 3, 3, 4, 5, 6]), "fault": None}
        f = rng.random()
        if f < .3:
            op["fault"] = ["int", round(rng.random(), 5), rng.choice(ASYNC)]
        elif f < .5:
            op["fault"] = ["np", rng.choice(["gradient", "empty"]),
                           rng.randint(0, 30), rng.choice(
                ["MemoryError", "FloatingPointError", "Injected",
                 "KeyboardInterrupt"])]
        ops.append(op)
    return {"src": src, "dims": dims, "seed": rng.randrange(1 << 30),
            "origin": [round(rng.uniform(-3, 3), 3) for _ in range(3)],
            "spacing": [rng.choice([.5, .25, 1., .1, .03, 2.])
                        for _ in range(3)],
            "field": field, "arrays": arrays, "other": other, "bad": bad,
            "max": rng.choice([0, 1, 1, 2, 2, 3, 4, 4, 5, 6, None]),
            "int32": rng.random() < .1, "ops": ops,
            "before": rng.randrange(1, 1 << 20) if rng.random() < .25 else 0,
            "twin": rng.choice([0, 0, 0, 1, 2, 4])}


def shrink(plan):
    for key, v in (("bad", None), ("before", 0), ("twin", 0), ("max", 1), ("max", 2), ("field", False),
                   ("int32", False), ("dims", [2, 2, 2]),
                   ("origin", [0., 0., 0.]), ("spacing", [1., 1., 1.])):
        if plan[key] != v:
            c = copy.deepcopy(plan)
            c[key] = v
            if key == "field":
                c["arrays"] = ["potential"]
            yield c
    for k, op in enumerate(plan["ops"]):
        if op["fault"]:
            c = copy.deepcopy(plan)
            c["ops"][k]["fault"] = None
            yield c


class Source(object):
    """Stored data and its faults."""

    def __init__(self, plan, sim):
        self.plan, self.sim = plan, sim
        r = np.random.RandomState(plan["seed"])
        d = tuple(plan["dims"])
        self.pot = r.randint(-8, 9, d).astype(float)
        self.fld = r.randint(-8, 9, (3,) + d).astype(float)
        if plan["int32"]:
            self.pot = self.pot.astype(np.float32)
        self.bad = plan["bad"]
        self.fired = None
        self.count = {}

    def hit(self, stage):
        b = self.bad
        if b and b[0] == "raise" and b[1] == stage:
            n = self.count.get(stage, 0)
            self.count[stage] = n + 1
            if n == b[2]:
                self.fired = b
                self.sim.fault("read-raises")
                raise make_exc(b[3], "reader")

    def arrays(self):
        """(name, components, flat data) as a vtk data set keeps them"""
        p, b = self.plan, self.bad
        names = [(i, None) for i in p["arrays"]]
        for name, comp, at in p["other"]:
            names.insert(min(at, len(names)), (name, comp))
        if b and b[0] == "none":
            self.fired = b
            self.sim.fault("no-arrays")
            names = []
        if b and b[0] == "lost":
            self.fired = b
            self.sim.fault("potential-lost")
            names = [i for i in names if i[0] != "potential"]
        out = []
        for name, comp in names:
            if name == "potential" and comp is None:
                a = self.pot.T.reshape(-1)
                comp = 1
            elif name == "field" and comp is None:
                a = self.fld.T.reshape(-1, 3)
                comp = 3
            else:
                a = np.arange(self.pot.size*comp, dtype=float) + 100.
                a = a.reshape((-1, comp) if comp > 1 else (-1,))
            if b and b[0] == "short" and b[1] == name:
                self.fired = b
                self.sim.fault("short-array")
                a = a[:int(b[2]*len(a))]
            if b and b[0] == "components" and b[1] == name and b[2] != comp:
                self.fired = b
                self.sim.fault("bad-components")
                comp = b[2]
                a = np.arange(self.pot.size*comp, dtype=float)
                a = a.reshape((-1, comp) if comp > 1 else (-1,))
            out.append((name, comp, a))
        return out


class DataArray(object):
    def __init__(self, src, comp, a):
        self._s, self._c, self._a = src, comp, a

    @property
    def number_of_components(self):
        self._s.hit("components")
        return self._c

    def to_array(self):
        self._s.hit("to_array")
        return self._a.copy()


class PointData(object):
    def __init__(self, src, arrays):
        self._s = src
        self._a = src.arrays() if arrays is None else arrays

    @property
    def number_of_arrays(self):
        return len(self._a)

    def get_array_name(self, i):
        self._s.hit("name")
        return self._a[i][0] if 0 <= i < len(self._a) else None

    def get_array(self, i):
        self._s.hit("array")
        if isinstance(i, str):
            i = [k for k, a in enumerate(self._a) if a[0] == i]
            if not i:
                return None
            i = i[0]
        if not 0 <= i < len(self._a):
            return None
        return DataArray(self._s, *self._a[i][1:])


class Points(object):
    def __init__(self, src, arrays=None):
        self._s = src
        self.point_data = PointData(src, arrays)

    @property
    def spacing(self):
        self._s.hit("spacing")
        return np.array(self._s.plan["spacing"])

    @property
    def origin(self):
        self._s.hit("origin")
        return np.array(self._s.plan["origin"])

    @property
    def dimensions(self):
        self._s.hit("dimensions")
        return np.array(self._s.plan["dims"])


def stub_tvtk(src, expect, sim):
    class StructuredPointsReader(object):
        def __init__(self, file_name=None, **kw):
            src.hit("init")
            self.file_name = file_name
            self._done = False

        def update(self):
            src.hit("update")
            sim.check(self.file_name == expect, "wrong-file", lambda:
                      "reader asked for %s" % self.file_name)
            self._done = True

        def get_output(self):
            src.hit("output")
            if not self._done:
                # vtk pipelines are empty before an update
                return Points(src, [])
            return Points(src)

        output = property(get_output)

    m = types.ModuleType("tvtk")
    m.__path__ = []
    api = types.ModuleType("tvtk.api")
    api.tvtk = types.SimpleNamespace(
        StructuredPointsReader=StructuredPointsReader)
    m.api = api
    return {"tvtk": m, "tvtk.api": api}


class Result(object):
    """a bem.result.Result"""

    def __init__(self, src):
        self._s = src
        p = src.plan
        src0 = src

        class G(object):
            shape = tuple(p["dims"])

            def get_origin(self):
                src0.hit("origin")
                return np.array(p["origin"])

            @property
            def step(self):
                src0.hit("step")
                return np.array(p["spacing"])
        self._g = G()
        b = src.bad
        self._f = src.fld if p["field"] else None
        if b and b[0] == "shape":
            s = list(self._f.shape)
            s[1+b[1]] = max(1, s[1+b[1]] + b[2])
            if s != list(self._f.shape):
                src.fired = b
                src.sim.fault("bad-shape")
                self._f = np.ones(s)
        if b and b[0] == "components":
            src.fired = b
            src.sim.fault("bad-components")
            self._f = np.ones((b[2],) + src.pot.shape)

    @property
    def grid(self):
        self._s.hit("grid")
        return self._g

    @property
    def potential(self):
        self._s.hit("potential")
        return self._s.pot

    @property
    def field(self):
        self._s.hit("field")
        return self._f


def diff(a, axis, h):
    """first finite differences, one sided at the borders"""
    a = np.moveaxis(a, axis, 0)
    o = np.empty(a.shape)
    if len(a) < 2:          # there is no difference to be taken
        o[...] = np.nan
        return np.moveaxis(o, 0, axis)
    o[0] = (a[1] - a[0])/h
    o[-1] = (a[-1] - a[-2])/h
    for i in range(1, len(a) - 1):
        o[i] = (a[i+1] - a[i-1])/(2*h)
    return np.moveaxis(o, 0, axis)


class Run(object):
    def __init__(self, plan, sim):
        self.plan, self.sim = plan, sim

    def reference(self, d, i, lower):
        """candidates for component i of order d"""
        for j, n in enumerate(NAMES[d-1]):
            for ax, m in enumerate("xyz"):
                if "".join(sorted(n + m)) == NAMES[d][i]:
                    yield diff(lower[..., j], ax, self.plan["spacing"][ax])

    def judge(self, e, stored, where):
        sim = self.sim
        p = self.plan
        sim.close(e.origin, p["origin"], "wrong-grid", where + " origin")
        sim.close(e.spacing, p["spacing"], "wrong-grid", where + " spacing")
        n = len(e.data)
        sim.check(n <= len(NAMES), "extra-orders", where)
        for d in range(n):
            a = e.data[d]
            sim.check(isinstance(a, np.ndarray) and a.dtype == np.double
                      and a.shape == tuple(p["dims"]) + (2*d+1,),
                      "wrong-shape", lambda: "%s: order %d: %s" % (
                          where, d, getattr(a, "shape", a)))
            if d < len(stored):
                sim.check(np.array_equal(a, stored[d]), "stored-changed",
                          lambda: "%s: order %d differs from the stored" % (
                              where, d))
                continue
            lower = e.data[d-1]
            scale = max(np.abs(lower).max()/min(p["spacing"]), 1e-300)
            for i in range(2*d+1):
                ok = any(np.all(np.abs(a[..., i] - c) <= 1e-9*scale)
                         for c in self.reference(d, i, lower))
                sim.check(ok, "wrong-derivative", lambda: "%s: order %d "
                          "component %s" % (where, d, NAMES[d][i]))

    def values(self, e, rng, where):
        sim, p = self.sim, self.plan
        dims = np.array(p["dims"])
        u = rng.uniform(-.7, 1.7, (4, 3))
        u[0] = rng.randint(0, 1000, 3) % dims/np.maximum(dims-1., 1.)
        x = np.array(p["origin"]) + u*(dims-1)*np.array(p["spacing"])
        sim.probe("outside")
        for d in range(len(e.data)):
            v = rng.randint(-3, 4)*.5
            want = v*np.array([interp(e.data[d], (xi - p["origin"])/np.array(
                p["spacing"])) for xi in x])
            scale = np.abs(e.data[d]).max()*abs(v) + 1e-300
            x0 = x.copy()
            g = e.potential(x, d, v)
            sim.close(g, want, "wrong-value", "%s order %d" % (where, d),
                      rtol=1e-9, scale=scale)
            out = np.full(want.shape, 2.)
            g = e.potential(x, d, potential=v, out=out)
            sim.close(out, want + 2., "wrong-value", "%s order %d out" % (
                where, d), rtol=1e-9, scale=scale + 2)
            sim.check(np.array_equal(x, x0), "points-changed", where)
            sim.probe("accumulate")


def interp(a, u):
    """trilinear, clamped to the grid"""
    s = np.array(a.shape[:3])
    u = np.clip(u, 0, s - 1)
    lo = np.minimum(np.floor(u).astype(int), np.maximum(s - 2, 0))
    f = u - lo
    r = np.zeros(a.shape[3])
    for c in np.ndindex(2, 2, 2):
        c = np.array(c)
        w = np.prod(np.where(c, f, 1 - f))
        if w:
            r = r + w*a[tuple(np.minimum(lo + c, s - 1))]
    return r


class Patch(object):
    """the k-th call of a numpy function fails"""

    def __init__(self, name, k, exc, sim):
        self.name, self.k, self.exc, self.sim = name, k, exc, sim
        self.n = 0
        self.fired = False

    def __enter__(self):
        self.orig = getattr(np, self.name)

        def f(*a, **k):
            # only calls of the code under test itself
            if sys._getframe(1).f_code.co_filename.startswith(core.PKG):
                self.n += 1
                if self.n == self.k + 1:
                    self.fired = True
                    self.sim.fault("numpy-raises")
                    raise make_exc(self.exc, "numpy")
            return self.orig(*a, **k)
        setattr(np, self.name, f)
        return self

    def __exit__(self, *a):
        setattr(np, self.name, self.orig)


def execute(plan, sim):
    tmp = tempfile.mkdtemp(prefix="dst-c09-")
    try:
        if plan["before"]:
            # the same file held something else before
            p = dict(plan, seed=plan["seed"] ^ plan["before"], bad=None,
                     ops=[], before=0)
            execute1(p, sim, tmp)
            sim.probe("file-rewritten")
        execute1(plan, sim, tmp)
    finally:
        os.rmdir(tmp)


def execute1(plan, sim, tmp):
    from electrode.electrode import GridElectrode
    r = Run(plan, sim)
    r.tmp = tmp
    thin = min(plan["dims"]) < 2
    e, stored = load(plan, r, GridElectrode, sim, thin)
    if e is None:
        # the intact source can be read afterwards
        p = dict(plan, bad=None)
        e, stored = load(p, r, GridElectrode, sim, thin)
        if e is None:
            return
        sim.probe("reload")
    rng = np.random.RandomState(plan["seed"] ^ 0x5a5a)
    keep = [i.copy() for i in e.data]
    r.judge(e, stored, "loaded")
    for k, op in enumerate(plan["ops"]):
        where = "generate %d (%d)" % (k, op["max"])
        history(r, e, stored, k, op, where, thin)
        for d, a in enumerate(keep):
            sim.check(np.array_equal(e.data[d], a), "order-changed",
                      lambda: "%s: order %d" % (where, d))
        keep = [i.copy() for i in e.data]
    if not thin:
        r.values(e, rng, "values")
        for d in range(1, len(e.data)):
            # once more from the order below
            a = e.derive(d)
            scale = max(np.abs(e.data[d-1]).max()/min(plan["spacing"]), 1e-300)
            for i in range(2*d+1):
                sim.check(any(np.all(np.abs(a[..., i] - c) <= 1e-9*scale)
                              for c in r.reference(d, i, e.data[d-1])),
                          "wrong-derivative", lambda: "derive(%d) component "
                          "%s" % (d, NAMES[d][i]))
            sim.probe("derived-again")
        for d, a in enumerate(keep):
            sim.check(np.array_equal(e.data[d], a), "order-changed",
                      lambda: "reading values: order %d" % d)
    # an undisturbed electrode reaches the same
    m = max([op["max"] for op in plan["ops"]] + [0])
    if thin or not plan["ops"]:
        return
    e.generate(m)
    f = GridElectrode(data=[i.copy() for i in stored], origin=plan["origin"],
                      spacing=plan["spacing"])
    f.generate(max(m, len(e.data)))
    sim.check(len(e.data) == len(f.data) or len(e.data) >= m,
              "orders-differ", lambda: "%d and %d orders" % (
                  len(e.data), len(f.data)))
    for d, (a, b) in enumerate(zip(e.data, f.data)):
        sim.check(np.array_equal(a, b), "resumed-differs", lambda:
                  "order %d differs from an undisturbed run" % d)


def load(plan, r, GridElectrode, sim, thin):
    src = Source(plan, sim)
    kw = {} if plan["max"] is None else {"maxderiv": plan["max"]}
    m = 4 if plan["max"] is None else plan["max"]
    bad = plan["bad"]
    stored = [src.pot[..., None].astype(float)]
    if plan["field"]:
        stored.append(np.moveaxis(src.fld, 0, -1).astype(float))
        sim.probe("field-stored")
    sim.probe("source-" + plan["src"])
    it = None
    tmp = r.tmp
    mods = {}
    try:
        if plan["src"] == "vtk":
            fil = os.path.join(tmp, "x.vtk")
            if bad and bad[0] == "missing":
                src.fired = bad
                sim.fault("missing-file")
                if bad[1] == "name":
                    fil = os.path.join(tmp, "x.vti")
                    open(fil, "w").close()
                elif bad[1] == "dir":
                    os.mkdir(fil)
            else:
                with open(fil, "w") as h:
                    h.write("# %d" % plan["seed"])
                os.utime(fil, (1e9 + plan["seed"] % 1000003,)*2)
            for n, _, _ in plan["other"]:
                sim.probe("pondpot-skipped" if "pondpot" in n
                          else "other-arrays")
            if plan["arrays"][0] == "field":
                sim.probe("field-first")
            mods = stub_tvtk(src, fil, sim)

            def go():
                return GridElectrode.from_vtk(fil, **kw)
        elif plan["src"] == "result":
            res = Result(src)

            def go():
                return GridElectrode.from_result(res, **kw)
        else:
            data = [i.copy() for i in stored]

            def go():
                if plan.get("twin") and not thin:
                    # another electrode of the same data on a coarser grid
                    t = GridElectrode(data=data, origin=[1., 2., 3.],
                                      spacing=[2., 3., 5.])
                    t.generate(plan["twin"])
                    sim.probe("same-data-twice")
                o = GridElectrode(data=data, origin=plan["origin"],
                                  spacing=plan["spacing"])
                o.generate(m)
                return o
        p0, f0 = src.pot.copy(), src.fld.copy()
        old = {k: sys.modules.get(k) for k in mods}
        sys.modules.update(mods)
        e = err = None
        try:
            if bad and bad[0] == "int":
                n = count_lines(go)
                it = Interrupter(1 + int(bad[1]*n), bad[2])
                e = it.run(go)
            else:
                e = go()
        except BaseException as x:
            err = x
        finally:
            for k in mods:
                if old[k] is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = old[k]
    finally:
        for n in os.listdir(tmp):
            q = os.path.join(tmp, n)
            (os.rmdir if os.path.isdir(q) else os.unlink)(q)
    if isinstance(err, core.Violation):
        raise err
    if it and it.fired:
        src.fired = bad
        sim.fault("load-interrupt")
    sim.log("load", plan["src"], src.fired, type(err).__name__)
    sim.state(plan["src"], plan["arrays"], [o[0] for o in plan["other"]],
              src.fired[:2] if src.fired and src.fired[0] != "int"
              else bool(src.fired), type(err).__name__, m)
    sim.check(np.array_equal(p0, src.pot) and np.array_equal(f0, src.fld),
              "source-changed", plan["src"])
    if plan["src"] == "direct":
        sim.check(len(data) == len(stored) and all(
            np.array_equal(a, b) for a, b in zip(data, stored)),
            "source-changed", "list of arrays")
    if src.fired:
        if src.fired[0] == "raise" and src.fired[2] and err is None:
            # a read beyond the needed ones
            return e, stored
        sim.check(err is not None, "failure-swallowed", lambda:
                  "%s loaded in spite of %s" % (plan["src"], src.fired))
        if src.fired[0] in ("raise", "int"):
            sim.check(is_injected(err), "failure-replaced", lambda:
                      core.short_tb(err))
        sim.probe("load-raises")
        return None, None
    if err is not None and thin and m > len(stored):
        sim.probe("thin-grid-raises")
        return None, None
    if err is not None and m > len(NAMES):
        return None, None
    sim.check(err is None, "unexpected-failure", lambda: "%s: %s" % (
        plan["src"], core.short_tb(err)))
    sim.check(len(e.data) >= max(m, len(stored)), "orders-missing", lambda:
              "%d orders after maxderiv=%s" % (len(e.data), m))
    return e, stored


def history(r, e, stored, k, op, where, thin):
    sim = r.sim
    n0 = len(e.data)
    m = op["max"]
    f = op["fault"]
    err = None
    fired = False

    def go():
        # four orders are the default
        e.generate() if m == 4 else e.generate(m)
    try:
        if f and f[0] == "int":
            c = copy.deepcopy(e)
            n = count_lines(lambda: c.generate(m))
            it = Interrupter(1 + int(f[1]*max(n, 1)), f[2])
            try:
                it.run(go)
            finally:
                if it.fired:
                    fired = True
                    sim.fault("interrupt")
        elif f:
            with Patch(f[1], f[2], f[3], sim) as pt:
                try:
                    go()
                finally:
                    fired = pt.fired
        else:
            go()
    except BaseException as x:
        err = x
    sim.log("generate", k, m, fired, type(err).__name__)
    sim.state(n0, m, f[0] if f else "", fired, type(err).__name__,
              len(e.data))
    if fired:
        sim.check(err is not None, "failure-swallowed", where)
        sim.check(is_injected(err), "failure-replaced", lambda: "%s: %s" % (
            where, core.short_tb(err)))
        if len(e.data) > n0:
            sim.probe("partial-progress")
    elif thin and m > n0 and err is not None:
        sim.probe("thin-grid-raises")
    else:
        sim.check(err is None, "unexpected-failure", lambda: "%s: %s" % (
            where, core.short_tb(err)))
        sim.check(len(e.data) >= max(m, n0), "orders-missing", lambda:
                  "%s: %d orders" % (where, len(e.data)))
        if len(e.data) == n0:
            sim.probe("idempotent")
        if len(e.data) > n0 + 1:
            sim.probe("two-more-orders")
        if k and r.plan["ops"][k-1]["fault"]:
            sim.probe("resumed")
        if len(e.data) == 6:
            sim.probe("order-5")
    sim.check(len(e.data) >= n0, "order-lost", where)
    r.judge(e, stored, where)
