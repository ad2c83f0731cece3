"""The package with native modules or optional packages missing."""
import copy
import importlib
import importlib.abc
import importlib.machinery
import os
import pickle
import sys
import types
import warnings

import numpy as np

from .. import core, world
from ..core import HarnessError
from ..world import rnd

ID = "C17"
RUNS = {"quick": 2000, "thorough": 60000}
BATCH = 20
RULE = ("A run takes away a random combination of the compiled modules and "
        "optional packages, each absent, failing while it is loaded, lacking "
        "functions, or failing on the first attempt only, imports the "
        "package's modules in a random order in a forked process and makes "
        "random calls: potentials of all electrode kinds, coordinate "
        "transformations, and calls of the other parts that need none, some "
        "or one of the packages. The results are compared with those of the "
        "complete package. Non-trivial: something was missing.")
REAL = ["electrode (all modules)", "compiled modules built from the tree",
        "Python import system"]
STUB = ["module finder that withholds modules"]
STATE_MEASURE = ("distinct (missing pieces and how, first module imported, "
                 "call kind, outcome)")
FAULTS = ["cexpressions-missing", "_transformations-missing",
          "cvxopt-missing", "matplotlib-missing", "shapely-missing",
          "gdsii-missing", "how-absent", "how-broken", "how-partial",
          "how-transient"]
PROBES = ["all-missing", "both-native-missing", "potential-order-4",
          "in-plane", "below", "strided", "out-given", "transformation",
          "needs-missing-raises", "works-without", "cover-planes", "mesh",
          "points", "polygon", "fresh-matplotlib"]
ASSUMPTIONS = [
    "a compiled module that cannot be loaded raises ImportError or one of "
    "its subclasses",
    "potentials at the very edges and corners of electrodes, where they are "
    "not defined, are not compared",
    "a quaternion and its negative are the same result"]
SHRINK = ("missing", "calls", "order")
NATIVE = ["cexpressions", "_transformations"]
OPT = ["cvxopt", "matplotlib", "shapely", "gdsii"]
MODS = ["electrode", "electrode.electrode", "electrode.transformations",
        "electrode.system", "electrode.utils", "electrode.grid",
        "electrode.mathieu", "electrode.saddle", "electrode.xic",
        "electrode.expressions", "electrode.pattern_constraints",
        "electrode.spherical_harmonics", "electrode.colors",
        "electrode.adjust"]
OTHER = {   # call: packages it needs
    "search": [], "analyze": [], "mathieu": [], "xic": [], "grid": [],
    "harmonics": [], "system": [], "saddle": [], "adjust": [],
    "voltages": [], "time": [],
    "optimize": ["cvxopt"], "shims": ["cvxopt"], "solve": ["cvxopt"],
    "plot": ["matplotlib"], "geometry": ["shapely"],
    "gds": ["shapely", "gdsii"], "colors": [],
}
SEARCH = {"search", "analyze", "saddle"}


# ------------------------------------------------------------- generators

def vec(r, n=3, s=1.):
    return r.uniform(-s, s, n)


def axes(r):
    a = ["%s%s%s%s" % (f, i, j, k) for f in "sr" for i in "xyz"
         for j in "xyz" for k in "xyz" if i != j and j != k]
    return a[r.randint(len(a))]


def rotm(r):
    q = r.randn(4)
    q /= np.sqrt((q*q).sum())
    return quat(q)


def quat(q):
    w, x, y, z = q
    m = np.identity(4)
    m[:3, :3] = [[1-2*(y*y+z*z), 2*(x*y-z*w), 2*(x*z+y*w)],
                 [2*(x*y+z*w), 1-2*(x*x+z*z), 2*(y*z-x*w)],
                 [2*(x*z-y*w), 2*(y*z+x*w), 1-2*(x*x+y*y)]]
    return m


def turn(axis, a):
    i = "xyz".index(axis)
    j, k = (i+1) % 3, (i+2) % 3
    m = np.identity(4)
    m[j, j] = m[k, k] = np.cos(a)
    m[k, j] = np.sin(a)
    m[j, k] = -m[k, j]
    return m


def unlucky(r):
    """an orientation close to, but not in, gimbal lock; its axes"""
    ax = axes(r)
    a = list(r.uniform(-3, 3, 3))
    a[1] = pick(r, 0., np.pi) if ax[1] == ax[3] else pick(
        r, np.pi/2, -np.pi/2)
    a[1] += pick(r, -1, 1)*10**r.uniform(-5, -1)
    m = [turn(c, i) for c, i in zip(ax[1:], a)]
    if ax[0] == "s":
        m = m[::-1]
    return np.dot(np.dot(m[0], m[1]), m[2]), ax


def flip(r):
    """close to half a turn"""
    q = r.randn(4)
    q[r.randint(4)] *= 30
    q[r.randint(4)] *= 10**r.uniform(-8, 0)
    q /= np.sqrt((q*q).sum())
    return quat(q)


def quats(r):
    """two quaternions, some nearly the same or nearly opposite"""
    a, b = vec(r, 4), vec(r, 4)
    if r.rand() < .5:
        b = pick(r, 1, -1)*(a + b*10**r.uniform(-3, -.5))
    return a, b


def orth(r):
    d = vec(r)
    return d/np.sqrt((d*d).sum()), vec(r), np.cross(d, vec(r))


def nrm(r):
    nd = r.randint(1, 4)
    a = r.randn(*r.randint(1, 5, nd))
    if r.rand() < .4:
        return (a,), {}
    k = {"axis": int(r.randint(-nd, nd))}
    return (a,), k


def sup(r):
    k = r.randint(3, 8)
    v0 = r.randn(3, k)
    v1 = np.dot(rotm(r)[:3, :3], v0)*(r.rand()+.5) + vec(r)[:, None]
    if r.rand() < .5:
        v1 = v1 + r.randn(3, k)*.1
    return (v0, v1), {"scale": bool(r.randint(2)), "usesvd": bool(
        r.randint(2))}


def same(r):
    m = np.identity(4)
    m[:3] = r.randn(3, 4)
    u = r.rand()
    return (m, m*r.choice([1., 2., -1.]) if u < .6 else m + (
        1e-3 if u < .8 else 1e-12)), {}


def pick(r, *a):
    return a[r.randint(len(a))]


TRANS = {
    "identity_matrix": lambda r: ((), {}),
    "translation_matrix": lambda r: ((vec(r),), {}),
    "reflection_matrix": lambda r: ((vec(r, pick(r, 3, 4)),
                                     vec(r, pick(r, 3, 4))), {}),
    "rotation_matrix": lambda r: ((r.uniform(-7, 7), vec(r)) + pick(
        r, (), (vec(r),), (vec(r, 4),)), {}),
    "scale_matrix": lambda r: ((r.uniform(-3, 3),), pick(
        r, {}, {"origin": vec(r)}, {"origin": vec(r), "direction": vec(r)},
        {"direction": vec(r)})),
    "projection_matrix": lambda r: ((vec(r), vec(r)), pick(
        r, {}, {"direction": vec(r)}, {"perspective": vec(r)},
        {"perspective": vec(r), "pseudo": True})),
    "clip_matrix": lambda r: ((-r.rand(), r.rand(), -r.rand(), r.rand(),
                               r.rand()+.1, r.rand()+2,
                               bool(r.randint(2))), {}),
    "shear_matrix": lambda r: ((r.uniform(-1.4, 1.4),) + orth(r), {}),
    "superimposition_matrix": sup,
    "orthogonalization_matrix": lambda r: ((r.uniform(1, 9, 3),
                                            r.uniform(60, 110, 3)), {}),
    "euler_matrix": lambda r: (tuple(r.uniform(-4, 4, 3)) + pick(
        r, (), (axes(r),), (axes(r),), (axes(r),)), {}),
    "euler_from_matrix": lambda r: (unlucky(r) if r.rand() < .4 else
                                    (rotm(r),) + pick(
        r, (), (axes(r),), (axes(r),)), {}),
    "quaternion_from_euler": lambda r: (tuple(r.uniform(-4, 4, 3)) + pick(
        r, (), (axes(r),), (axes(r),)), {}),
    "quaternion_about_axis": lambda r: ((r.uniform(-7, 7), vec(r)), {}),
    "quaternion_matrix": lambda r: ((vec(r, 4)*pick(r, 1., 1., 0., 1e-20,
                                                    5.),), {}),
    "quaternion_from_matrix": lambda r: ((pick(r, rotm, flip)(r),) + pick(
        r, (), (True,), (False,)), {}),
    "quaternion_multiply": lambda r: ((vec(r, 4), vec(r, 4)), {}),
    "quaternion_conjugate": lambda r: ((vec(r, 4),), {}),
    "quaternion_inverse": lambda r: ((vec(r, 4),), {}),
    "quaternion_slerp": lambda r: (quats(r) + (pick(
        r, 0., 1., .5, r.uniform(-.5, 1.5)),), pick(
        r, {}, {"spin": int(r.randint(-2, 3))}, {"shortestpath": False},
        {"spin": 1, "shortestpath": True})),
    "random_quaternion": lambda r: ((r.rand(3),), {}),
    "random_rotation_matrix": lambda r: ((r.rand(3),), {}),
    "arcball_map_to_sphere": lambda r: ((vec(r, 2, 3), vec(r, 2),
                                         r.rand()+.5), {}),
    "arcball_constrain_to_axis": lambda r: ((vec(r), pick(
        r, vec(r), np.array([0., 0., 1.]))), {}),
    "vector_norm": nrm,
    "unit_vector": nrm,
    "inverse_matrix": lambda r: ((r.randn(*[r.randint(1, 7)]*2),), {}),
    "is_same_transform": same,
    # only in Python, on top of the others
    "translation_from_matrix": lambda r: ((rotm(r),), {}),
    "concatenate_matrices": lambda r: ((rotm(r), rotm(r), rotm(r)), {}),
    "compose_matrix": lambda r: ((), {"scale": vec(r) + 2, "angles": vec(r),
                                      "translate": vec(r)}),
    "decompose_matrix": lambda r: ((rotm(r),), {}),
    "euler_from_quaternion": lambda r: ((vec(r, 4), axes(r)), {}),
    "affine_matrix_from_points": lambda r: ((lambda a: (a, np.dot(
        rotm(r)[:3, :3], a) + vec(r)[:, None]))(r.randn(3, 5)), {}),
    "angle_between_vectors": lambda r: ((vec(r), vec(r)), {}),
    "vector_product": lambda r: ((vec(r), vec(r)), {}),
    "rotation_from_matrix": lambda r: ((rotm(r),), {}),
    "reflection_from_matrix": lambda r: ((np.diag(pick(
        r, [1., -1., 1., 1.], [-1., 1., 1., 1.])),), {}),
}
EITHER_SIGN = {"quaternion_from_matrix"}
LOOSE = {"decompose_matrix", "rotation_from_matrix"}


def gen(rng, idx):
    names = NATIVE + OPT
    missing = []
    for n in names:
        if rng.random() < (.6 if n in NATIVE else .25):
            how = rng.choice(["absent", "absent", "broken"] + (
                ["partial", "transient"] if n in NATIVE else []))
            missing.append([n, how, rng.randrange(1 << 16)])
    calls = []
    for _ in range(rng.choice([3, 5, 8])):
        r = rng.random()
        if r < .4:
            s = world.gen_spec(rng, "PPQQMMCG")
            d = rng.choice([0, 0, 1, 1, 2, 3, 4] + [5]*(s["t"] == "Q"))
            pts = []
            for _ in range(rng.choice([1, 2, 4])):
                z = rng.choice([rnd(rng, .3, 2.5)]*4 + [-rnd(rng, .3, 2)]
                               + [0.]*2)
                pts.append([rnd(rng, -2.5, 2.5, 4), rnd(rng, -2.5, 2.5, 4),
                            z])
            calls.append({"k": "pot", "s": s, "d": d, "x": pts,
                          "v": rng.choice([1., 1., -2.5, 1, 0.]),
                          "lay": rng.choice(["c", "c", "f", "stride",
                                             "row"]),
                          "out": rng.random() < .4})
        elif r < .75:
            for _ in range(3):
                calls.append({"k": "trans", "f": rng.choice(sorted(TRANS)),
                              "seed": rng.randrange(1 << 30)})
        else:
            calls.append({"k": "other", "f": rng.choice(sorted(OTHER)),
                          "seed": rng.randrange(1 << 20)})
    order = rng.sample(MODS, rng.choice([0, 1, 2, 4]))
    return {"missing": missing, "calls": calls, "order": order,
            "fresh": any(c.get("f") == "plot" for c in calls)
            and rng.random() < .3}


def shrink(plan):
    for k, m in enumerate(plan["missing"]):
        if m[1] != "absent":
            c = copy.deepcopy(plan)
            c["missing"][k][1] = "absent"
            yield c
    if plan.get("fresh"):
        yield dict(plan, fresh=False)
    for k, a in enumerate(plan["calls"]):
        if a["k"] == "pot":
            for key, v in (("lay", "c"), ("out", False), ("v", 1.),
                           ("x", a["x"][:1]), ("x", a["x"][1:])):
                if a[key] != v and v != []:
                    c = copy.deepcopy(plan)
                    c["calls"][k][key] = v
                    yield c


# ------------------------------------------------------------- the calls

def singular(s, x):
    """on an edge or a corner of the electrode or its images"""
    if s["t"] not in "PQM":
        return False
    zs = [x[2] + 2*k*s["cover_height"] for k in range(
        -s["cover_nmax"], s["cover_nmax"]+1)]
    if min(abs(z) for z in zs) > 1e-9:
        return False
    if s["t"] == "Q":
        return min(np.hypot(x[0]-p[0], x[1]-p[1]) for p in s["points"]) < 1e-6
    for p in s["paths"] if s["t"] == "P" else s["squares"]:
        for a, b in zip(p, p[1:] + p[:1]):
            a, b, c = np.array(a), np.array(b), np.array(x[:2])
            t = np.clip(np.dot(c-a, b-a)/max(np.dot(b-a, b-a), 1e-30), 0, 1)
            if np.hypot(*(a + t*(b-a) - c)) < .05:
                return True
    return False


def do_pot(c):
    e = world.make_inner(c["s"])
    x = np.array(c["x"], float)
    if c["lay"] == "f":
        x = np.asfortranarray(x)
    elif c["lay"] == "stride":
        x = np.repeat(x, 2, 0)[::2]
    elif c["lay"] == "row":
        x = np.hstack([x, x])[:, :3]
    d = c["d"]
    if c["out"]:
        out = np.full((len(x), 2*d+1), .25)
        r = e.potential(x, d, c["v"], out=out)
        return [out - .25, np.asarray(r) - .25]
    return [e.potential(x, d, c["v"])]


def do_trans(c):
    import electrode.transformations as T
    r = np.random.RandomState(c["seed"])
    a, k = TRANS[c["f"]](r)
    keep = copy.deepcopy((a, k))
    res = getattr(T, c["f"])(*a, **k)
    for p, q in zip(a, keep[0]):
        if isinstance(p, np.ndarray) and not np.array_equal(p, q):
            return ["argument changed"]
    if isinstance(res, (tuple, list)):
        res = [np.atleast_1d(np.asarray(i, float)) for i in res]
        if all(len(i) == 1 for i in res):
            res = [np.concatenate(res)]
        return res
    if isinstance(res, (bool, np.bool_)):
        return [np.array(float(res))]
    res = np.asarray(res, float)
    if c["f"] == "vector_norm":
        res = res.squeeze()     # a scalar may come as (1,)
    return [res]


def five_wire(r):
    import electrode as E
    w = .5 + .2*r.rand()
    rect = lambda a, b, c, d: np.array([[a, c], [b, c], [b, d], [a, d]],
                                       float)
    els = [E.PolygonPixelElectrode(name="rf", rf=1., paths=[
        rect(-5, 5, .5, .5+w), rect(-5, 5, -.5-w, -.5)])]
    for i in range(4):
        els.append(E.PolygonPixelElectrode(name="c%i" % i, dc=.02*r.randn(),
                                           paths=[rect(-2+i, -1+i, -.5,
                                                       .5)]))
    s = E.System(els)
    s.rf_coeff = .3
    return s


def do_other(c):
    import electrode as E
    f = c["f"]
    r = np.random.RandomState(c["seed"])
    x0 = np.array([.1*r.randn(), .05*r.randn(), .9])
    if f == "search":
        s = five_wire(r)
        s.dcs = s.dcs*0
        x = s.minimum(x0, axis=(1, 2))
        return [s.potential(x, 0), s.potential(x, 2), x]
    if f == "saddle":
        s = five_wire(r)
        s.dcs = s.dcs*0
        x, p = s.saddle(x0 + [0, 0, .6], axis=(1, 2))
        return [np.asarray(x), np.asarray(p)]
    if f == "analyze":
        s = five_wire(r)
        s.dcs = s.dcs*0
        x = s.minimum(x0, axis=(1, 2))
        text = "\n".join(s.analyze_static(x, axis=(1, 2), l=1e-4, m=40*1.66e-27,
                                          o=2*np.pi*30e6))
        return [text.split(":")[0], np.array([len(text.splitlines())],
                                             float)]
    if f == "system":
        s = five_wire(r)
        return [s.potential(x0[None], d) for d in range(3)] + [
            s.individual_potential(x0[None], 1),
            s.electrical_potential(x0[None], 2, "rf", expand=True)]
    if f == "voltages":
        s = five_wire(r)
        with s.with_voltages(dcs=r.randn(len(s))):
            a = s.potential(x0, 1)
        return [a, s.potential(x0, 1)]
    if f == "time":
        s = five_wire(r)
        return [s.time_potential(x0[None], 1, t=.3)]
    if f == "mathieu":
        from electrode.utils import mathieu
        mu, b = mathieu(2, np.array([[.2*r.rand()]]),
                        np.array([[.01*r.rand()]]))
        return [np.sort(np.abs(np.asarray(mu).imag))]
    if f == "xic":
        from electrode.xic import xic_to_list
        v = r.randint(-99, 99, 8)
        return list(xic_to_list(["L 1;\n", "P %i %i\n" % tuple(v[:2]),
                                 " %i %i\n" % tuple(v[2:4]),
                                 " %i %i;\n" % tuple(v[4:6])]))
    if f == "grid":
        g = E.Grid(center=x0, step=np.array([.1, .2, .3]), shape=(2, 3, 4))
        return [g.to_points(), g.to_xyz()[0], g.get_origin()]
    if f == "harmonics":
        s = E.SphericalGrid(x0, .1, 4)
        y = s.spherical_harmonics.analysis(r.randn(4, 8).astype(complex))
        return [np.asarray(s.to_points()), y.real, y.imag]
    if f == "adjust":
        import electrode.adjust as A
        return [np.array(sorted(i for i in dir(A)
                                if i[0] != "_")).shape]
    if f == "colors":
        from electrode import colors
        return [np.array(colors.set3, float)]
    if f == "shims":
        s = five_wire(r)
        try:
            return [s.shims([(x0, None, "x"), (x0, None, "z")])]
        except TypeError:
            raise
    ctrs = lambda: [E.PatternRangeConstraint(min=-1., max=1.),
                    E.PotentialObjective(x=x0, derivative="x", value=1.),
                    E.PotentialObjective(x=x0, derivative="z", value=0.)]
    if f == "optimize":
        s = five_wire(r)
        p, k = s.optimize(ctrs(), verbose=False)
        return [p, np.array(k)]
    if f == "solve":
        s = five_wire(r)
        p, k = s.solve([ctrs()[:1] + [
            E.PotentialObjective(x=x0, derivative="x", offset=.01),
            E.pattern_constraints.VoltageDerivativeConstraint(
                weight=1., order=1)]], [], verbose=False)
        return [np.asarray(p)]
    if f == "plot":
        s = five_wire(r)
        if r.rand() < .5:
            s.append(E.PointPixelElectrode(name="p", areas=[.1, .2],
                                           points=r.randn(2, 2)))
        if r.rand() < .3:
            s = E.System([s[-1]])
        got = []

        class Ax(object):
            def add_patch(self, p):
                got.append(p)

            def add_artist(self, p):
                got.append(p)

            def add_collection(self, p):
                got.append(p)

            def text(self, *a, **k):
                pass

            def __getattr__(self, n):
                return lambda *a, **k: None
        s.plot(Ax())
        return [np.array([float(len(got))])]
    if f in ("geometry", "gds"):
        from electrode.polygons import Polygons
        s = five_wire(r)
        p = Polygons.from_system(s)
        if f == "geometry":
            p = p.remove_overlaps()
            return [np.array([a.area for _, a in p]), np.array(
                [len(p.to_system())], float)]
        import io
        b = io.BytesIO()
        p.to_gds(scale=1e-6).save(b)
        b.seek(0)
        q = Polygons.from_gds(b, scale=1e-6, poly_layers=None)
        return [np.array([a.area for _, a in q])]
    raise HarnessError(f)


def perform(calls):
    out = []
    for c in calls:
        try:
            with np.errstate(all="ignore"):
                res = {"pot": do_pot, "trans": do_trans, "other": do_other}[
                    c["k"]](c)
            out.append(("ok", res))
        except HarnessError:
            raise
        except Exception as e:
            out.append(("raise", type(e).__name__, core.short_tb(e)))
    return out


# ------------------------------------------------------------- withholding

class Broken(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """finds the module, fails while it is executed"""

    def __init__(self, name, once):
        self.name, self.once, self.n = name, once, 0
        self.path = None

    def find_spec(self, name, path=None, target=None):
        if name == self.name or name.startswith(self.name + "."):
            self.n += 1
            if self.once and self.n > 1:
                return None
            return importlib.machinery.ModuleSpec(name, self)

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        raise ImportError("%s: undefined symbol: dst_injected" % self.name)


def withhold(plan):
    """in a forked process: forget the package and hide modules"""
    keep = {}
    for n in NATIVE:
        keep[n] = sys.modules.get("electrode." + n)
        if keep[n] is None:
            importlib.import_module("electrode." + n)
            keep[n] = sys.modules["electrode." + n]
    for n in list(sys.modules):
        if n == "electrode" or n.startswith("electrode."):
            del sys.modules[n]
    for n in NATIVE:
        sys.modules["electrode." + n] = keep[n]
    if plan.get("fresh"):
        # nobody has imported matplotlib before
        for n in list(sys.modules):
            if n == "matplotlib" or n.startswith("matplotlib."):
                del sys.modules[n]
    missing = plan["missing"]
    for name, how, seed in missing:
        full = "electrode." + name if name in NATIVE else name
        for n in list(sys.modules):
            if n == full or n.startswith(full + "."):
                del sys.modules[n]
        if how == "absent":
            sys.modules[full] = None
        elif how in ("broken", "transient"):
            sys.meta_path.insert(0, Broken(full, how == "transient"))
        elif how == "partial":
            # an old build without some functions
            m = types.ModuleType(full)
            r = np.random.RandomState(seed)
            fs = [f for f in sorted(dir(keep[name])) if not f.startswith("_")
                  and callable(getattr(keep[name], f))]
            gone = set(np.array(fs)[r.rand(len(fs)) < .5]) or {fs[0]}
            for f in fs:
                if f not in gone:
                    setattr(m, f, getattr(keep[name], f))
            sys.modules[full] = m


def degraded(plan):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    withhold(plan)
                    for m in plan["order"]:
                        importlib.import_module(m)
                    import electrode    # noqa
                    out = ("done", perform(plan["calls"]))
            except HarnessError as e:
                out = ("harness", repr(e))
            except BaseException as e:
                out = ("import", type(e).__name__, core.short_tb(e))
            b = pickle.dumps(out)
            while b:
                b = b[os.write(w, b):]
        except BaseException:
            pass
        os._exit(0)
    os.close(w)
    b = b""
    while True:
        c = os.read(r, 1 << 16)
        if not c:
            break
        b += c
    os.close(r)
    os.waitpid(pid, 0)
    if not b:
        return ("died",)
    out = pickle.loads(b)
    if out[0] == "harness":
        raise HarnessError(out[1])
    return out


def execute(plan, sim):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want = perform(plan["calls"])
    for n, how, _ in plan["missing"]:
        sim.fault(n + "-missing")
        sim.fault("how-" + how)
    gone = {m[0] for m in plan["missing"]}
    if len(gone) == len(NATIVE + OPT):
        sim.probe("all-missing")
    if gone.issuperset(NATIVE):
        sim.probe("both-native-missing")
    if plan.get("fresh"):
        sim.probe("fresh-matplotlib")
    out = degraded(plan)
    sim.log(out[0], sorted(gone))
    first = plan["order"][0] if plan["order"] else "electrode"
    sim.check(out[0] != "died", "crash", "the process died without %s" % gone)
    sim.check(out[0] != "import", "import-failed", lambda: "without %s: %s" % (
        sorted(gone), out[1:]))
    for k, (c, a, b) in enumerate(zip(plan["calls"], want, out[1])):
        name = c.get("f", c.get("s", {}).get("t"))
        where = "call %d (%s %s) without %s" % (k, c["k"], name, sorted(gone))
        needs = set(OTHER[c["f"]] if c["k"] == "other" else []) & gone
        # hidden for good, not on the first attempt only
        sim.state(sorted(m[:2] for m in plan["missing"]), first, c["k"], name,
                  b[0])
        sim.log(k, a[0], b[0])
        if c["k"] == "other" and a[0] == "raise" and not needs:
            # a search that does not converge
            sim.check(c["f"] != "plot", "needs-more", lambda: "%s works only "
                      "if something else has loaded modules: %s" % (
                          c["f"], a))
            sim.log("undecided")
            continue
        if needs:
            sim.check(b[0] == "raise", "silent", lambda: "%s: returned %s "
                      "without %s" % (where, b[1], needs))
            sim.probe("needs-missing-raises")
            continue
        if c["k"] == "other" and gone:
            sim.probe("works-without")
        if b[0] == "raise" and c.get("f") in SEARCH and (
                "ValueError: failed" in b[2]):
            sim.log("undecided")    # rounding decides on convergence
            continue
        sim.check(a[0] == b[0], "outcome-differs", lambda: "%s: %s, complete: "
                  "%s" % (where, b, a))
        if a[0] == "raise":
            continue
        compare(sim, c, a[1], b[1], where)


def compare(sim, c, a, b, where):
    sim.check(len(a) == len(b), "result-differs", where)
    if c["k"] == "pot":
        sim.probe({"P": "polygon", "Q": "points", "M": "mesh"}.get(
            c["s"]["t"], "polygon"))
        if c["d"] >= 4:
            sim.probe("potential-order-4")
        if c["lay"] in ("stride", "row"):
            sim.probe("strided")
        if c["out"]:
            sim.probe("out-given")
        if c["s"].get("cover_nmax"):
            sim.probe("cover-planes")
        ok = [not singular(c["s"], x) for x in c["x"]]
        for x in c["x"]:
            sim.probe("in-plane" if x[2] == 0 else "below" if x[2] < 0
                      else "polygon")
        for p, q in zip(a, b):
            sim.check(p.shape == q.shape, "result-differs", where)
            p, q = p[ok], q[ok]
            if len(p) == 0:
                continue
            s = np.abs(p[np.isfinite(p)])
            sim.close(q, p, "result-differs", where, rtol=1e-7, atol=1e-10,
                      scale=float(s.max()) if s.size else 0.)
        return
    if c["k"] == "trans":
        sim.probe("transformation")
    for p, q in zip(a, b):
        if isinstance(p, str) or isinstance(q, str):
            sim.check(isinstance(p, str) == isinstance(q, str) and p == q,
                      "result-differs", lambda: "%s: %s %s" % (where, q, p))
            continue
        p, q = np.asarray(p, float), np.asarray(q, float)
        if c.get("f") in EITHER_SIGN and p.shape == q.shape and (
                p*q).sum() < 0:
            q = -q
        tol = 1e-3 if c["k"] == "other" else 1e-5 if c["f"] in LOOSE else 1e-8
        sim.close(q, p, "result-differs", where, rtol=tol, atol=tol)
