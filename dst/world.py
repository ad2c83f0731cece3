"""Simulated trap worlds: electrode specs, exact stub electrodes, fault
wrappers, and the independent superposition reference."""
import itertools
import math

import numpy as np

from .core import HarnessError, make_exc

NAMES = [
    [""],
    "x y z".split(),
    "xx xy xz yy yz".split(),
    "xxy xxz yyz xyy xzz yzz xyz".split(),
    "xxxy xxxz xxyy xxzz xyyy xzzz yyyz yyzz yzzz".split(),
    "xxxyy xxxyz xxxzz xxyyy xxyyz xxyzz xxzzz xyyyz xyyzz yyyzz "
    "yyzzz".split(),
]


def multi(name):
    return (name.count("x"), name.count("y"), name.count("z"))


MULTI = [[multi(n) for n in names] for names in NAMES]


def _expanders():
    """Matrix from the reduced to all derivatives of each order, from the
    vanishing trace alone."""
    out = []
    for d in range(6):
        alls = [(i, j, d-i-j) for i in range(d+1) for j in range(d+1-i)]
        idx = {m: k for k, m in enumerate(alls)}
        rows, rhs = [], []
        for k, m in enumerate(MULTI[d]):
            r = np.zeros(len(alls))
            r[idx[m]] = 1
            rows.append(r)
            e = np.zeros(len(MULTI[d]))
            e[k] = 1
            rhs.append(e)
        if d >= 2:
            for i in range(d-1):
                for j in range(d-1-i):
                    k = d-2-i-j
                    r = np.zeros(len(alls))
                    for a in ((i+2, j, k), (i, j+2, k), (i, j, k+2)):
                        r[idx[a]] = 1
                    rows.append(r)
                    rhs.append(np.zeros(len(MULTI[d])))
        M = np.linalg.lstsq(np.array(rows), np.array(rhs), rcond=None)[0]
        R = np.rint(M)
        assert np.allclose(R, M, atol=1e-9)
        tens = np.zeros((3,)*d + (len(MULTI[d]),))
        for t in itertools.product(range(3), repeat=d):
            m = (t.count(0), t.count(1), t.count(2))
            tens[t] = R[idx[m]]
        out.append(tens)
    return out


EXPAND = _expanders()


def expand(red):
    """(n, 2d+1) -> (n, 3, ..., 3)"""
    d = (red.shape[-1]-1)//2
    if d == 0:
        return red[..., 0]
    return np.moveaxis(np.tensordot(EXPAND[d], red, axes=([d], [1])), -1, 0)


def leibniz_square(tens, d):
    """d-th derivative tensor of |grad P|^2 from the derivative tensors
    tens[k] = (n, 3 x k) of P."""
    n = tens[1].shape[0]
    out = np.zeros((n,) + (3,)*d)
    ax = list(range(1, d+1))
    for r in range(d+1):
        for S in itertools.combinations(ax, r):
            C = [a for a in ax if a not in S]
            out += np.einsum(tens[r+1], [0, 49] + list(S),
                             tens[d-r+1], [0, 49] + C, [0] + ax)
    return out


# ------------------------------------------------------------ polynomials

def p_lap2(p):
    q = {}
    for (i, j), c in p.items():
        if i > 1:
            q[i-2, j] = q.get((i-2, j), 0) + c*i*(i-1)
        if j > 1:
            q[i, j-2] = q.get((i, j-2), 0) + c*j*(j-1)
    return q


def harmonic(f, g):
    """Harmonic polynomial with value f(x,y) and normal derivative g(x,y)
    at z=0."""
    out = {}
    for base, p in ((0, f), (1, g)):
        p = {(i, j): float(c) for i, j, c in p}
        k = 0
        while p:
            for (i, j), c in p.items():
                m = (i, j, 2*k+base)
                out[m] = out.get(m, 0.) + (-1)**k*c/math.factorial(2*k+base)
            p = p_lap2(p)
            k += 1
    return out


def p_eval(p, x, m):
    """Partial derivative m of polynomial p at points x (n, 3)."""
    r = np.zeros(len(x))
    for (i, j, k), c in p.items():
        if i < m[0] or j < m[1] or k < m[2]:
            continue
        for e, d in ((i, m[0]), (j, m[1]), (k, m[2])):
            for t in range(d):
                c = c*(e-t)
        r = r + c*x[:, 0]**(i-m[0])*x[:, 1]**(j-m[1])*x[:, 2]**(k-m[2])
    return r


def classes():
    import electrode as E
    from electrode.electrode import Electrode
    global _C
    try:
        return _C
    except NameError:
        pass

    class HarmonicElectrode(Electrode):
        """Exact analytic electrode: a harmonic polynomial."""

        def __init__(self, poly, **kw):
            super(HarmonicElectrode, self).__init__(**kw)
            self.poly = poly

        def potential(self, x, derivative=0, potential=1., out=None):
            x = np.atleast_2d(np.asarray(x, float))
            if out is None:
                out = np.zeros((x.shape[0], 2*derivative+1))
            for i, m in enumerate(MULTI[derivative]):
                out[:, i] += potential*p_eval(self.poly, x, m)
            return out

        def plot(self, ax, label=None, color=None, **kw):
            ax.text(0, 0, self.name or "h")

    class FaultyElectrode(Electrode):
        """Wraps an electrode; misbehaves as told."""

        def __init__(self, inner, **kw):
            super(FaultyElectrode, self).__init__(**kw)
            self.inner = inner
            self.calls = 0
            self.script = {}     # call number -> (mode, exc)
            self.always = None   # (mode, exc)
            self.on_call = None
            self.sim = None

        def arm(self, script, sim):
            self.calls, self.script, self.sim = 0, dict(script), sim

        def disarm(self):
            self.script, self.always = {}, None

        def potential(self, x, derivative=0, potential=1., out=None):
            n = self.calls
            self.calls = n+1
            act = self.script.get(n, self.always)
            if self.on_call is not None:
                self.on_call(n)
            if act is None:
                return self.inner.potential(x, derivative, potential, out)
            mode, exc = act
            if mode == "nan":
                self.sim.fault("electrode-nan")
                r = self.inner.potential(x, derivative, potential, out)
                r[:] = np.nan
                return r
            self.sim.fault("electrode-raises-" + mode)
            if mode == "before":
                raise make_exc(exc)
            if mode == "after":
                self.inner.potential(x, derivative, potential, out)
                raise make_exc(exc)
            if mode == "mid":
                if out is not None:
                    out[:, :1] += 17.
                raise make_exc(exc)
            raise HarnessError(mode)

        def plot(self, ax, label=None, color=None, **kw):
            n = self.calls
            self.calls = n+1
            act = self.script.get(n, self.always)
            if act is not None:
                self.sim.fault("electrode-plot-raises")
                raise make_exc(act[1])
            return self.inner.plot(ax, label=label, color=color, **kw)

        def orientations(self):
            return self.inner.orientations()

        def __getattr__(self, k):
            if k.startswith("__") or k == "inner":
                raise AttributeError(k)
            return getattr(self.inner, k)

    class TouchyElectrode(Electrode):
        """Voltages behind (simulated) hardware: a read or write can fail."""
        __slots__ = "inner _dc _rf armed fired".split()

        def __init__(self, inner, name="", dc=0., rf=0.):
            self.inner, self.armed, self.fired = inner, None, 0
            self._dc, self._rf, self.name = dc, rf, name

        def _get(self, k):
            a = self.armed
            if a and a[0] == "get" and a[1] == k:
                self.armed, self.fired = None, self.fired+1
                raise make_exc(a[2], "hardware")
            return getattr(self, "_"+k)

        def _set(self, k, v):
            a = self.armed
            if a and a[0] == "set" and a[1] == k:
                self.armed, self.fired = None, self.fired+1
                raise make_exc(a[2], "hardware")
            if a and a[0] == "setafter" and a[1] == k:
                self.armed, self.fired = None, self.fired+1
                setattr(self, "_"+k, v)
                raise make_exc(a[2], "hardware")
            setattr(self, "_"+k, v)

        dc = property(lambda s: s._get("dc"), lambda s, v: s._set("dc", v))
        rf = property(lambda s: s._get("rf"), lambda s, v: s._set("rf", v))

        def potential(self, x, derivative=0, potential=1., out=None):
            return self.inner.potential(x, derivative, potential, out)

    class C(object):
        pass
    C.System = E.System
    C.Harmonic, C.Faulty, C.Touchy = (HarmonicElectrode, FaultyElectrode,
                                      TouchyElectrode)
    # importable for pickling
    for k in (HarmonicElectrode, FaultyElectrode, TouchyElectrode):
        k.__module__ = __name__
        k.__qualname__ = k.__name__
        globals()[k.__name__] = k
    _C = C
    return C


# ------------------------------------------------------------ specs

def rnd(rng, a, b, nd=3):
    return round(rng.uniform(a, b), nd)


def gen_square(rng, size=2.):
    x, y = rnd(rng, -2, 2, 2), rnd(rng, -2, 2, 2)
    w, h = rnd(rng, .3, size, 2), rnd(rng, .3, size, 2)
    return [[x, y], [x+w, y], [x+w, y+h], [x, y+h]]


def gen_spec(rng, kinds="HPQCMG", deg=5):
    t = rng.choice(kinds)
    if t == "H":
        terms = []
        for _ in range(2):
            terms.append([[i, j, rng.choice([-2, -1, -.5, .5, 1, 2])]
                          for i, j in {(a, b) for a, b in (
                              (rng.randint(0, deg), rng.randint(0, deg))
                              for _ in range(rng.randint(1, 5)))
                              if a+b <= deg}])
        return {"t": "H", "f": sorted(terms[0]), "g": sorted(terms[1])}
    cov = {"cover_nmax": rng.choice([0, 0, 0, 1, 2]),
           "cover_height": rng.choice([5., 8., 50.])}
    if t == "P":
        return dict({"t": "P", "paths": [gen_square(rng) for _ in range(
            rng.randint(1, 2))]}, **cov)
    if t == "Q":
        n = rng.randint(1, 3)
        return dict({"t": "Q", "points": [[rnd(rng, -2, 2), rnd(rng, -2, 2)]
                                          for _ in range(n)],
                     "areas": [rnd(rng, .1, 1) for _ in range(n)]}, **cov)
    if t == "C":
        return {"t": "C", "height": rng.choice([5., 20., 50.])}
    if t == "M":
        return dict({"t": "M", "squares": [gen_square(rng) for _ in range(
            rng.randint(1, 2))],
            "pots": [rnd(rng, -1, 1) for _ in range(2)]}, **cov)
    if t == "G":
        n = rng.randint(0, 999)
        return {"t": "G", "seed": n, "shape": [rng.randint(3, 5)
                                               for _ in range(3)],
                "origin": rng.choice([[-2., -2., 0.]]*3 + [[0., 0., 0.]]),
                "spacing": rng.choice([[rng.choice([1., 1.5]) for _ in range(
                    3)]]*3 + [[1., 1., 1.]]),
                "orders": 6}
    raise HarnessError(t)


def make_inner(spec, **kw):
    import electrode as E
    from electrode.electrode import MeshPixelElectrode
    t = spec["t"]
    C = classes()
    if t == "H":
        return C.Harmonic(harmonic(spec["f"], spec["g"]), **kw)
    if t in "PQM":
        # defaults are left out
        if spec["cover_nmax"]:
            kw["cover_nmax"] = spec["cover_nmax"]
        if spec["cover_height"] != 50.:
            kw["cover_height"] = spec["cover_height"]
    if t == "P":
        return E.PolygonPixelElectrode(
            paths=[np.array(p, float) for p in spec["paths"]], **kw)
    if t == "Q":
        return E.PointPixelElectrode(points=spec["points"],
                                     areas=spec["areas"], **kw)
    if t == "C":
        if spec["height"] != 50.:
            kw["height"] = spec["height"]
        return E.CoverElectrode(**kw)
    if t == "M":
        pts, edges, polys = [], [], []
        for k, sq in enumerate(spec["squares"]):
            b = len(pts)
            pts.extend(sq)
            m = len(sq)
            edges.extend([[b+(i-1) % m, b+i] for i in range(m)])
            polys.extend([k]*m)
        return MeshPixelElectrode(points=pts, edges=edges, polygons=polys,
                                  potentials=spec["pots"][:len(
                                      spec["squares"])], **kw)
    if t == "G":
        r = np.random.RandomState(spec["seed"])
        data = [r.uniform(-1, 1, tuple(spec["shape"]) + (2*d+1,))
                for d in range(spec["orders"])]
        if any(spec["origin"]):
            kw["origin"] = spec["origin"]
        if set(spec["spacing"]) != {1.}:
            kw["spacing"] = spec["spacing"]
        return E.GridElectrode(data=data, **kw)
    raise HarnessError(t)


def unit(spec, x, d):
    """Unit contribution (n, 2d+1) of a freshly built electrode; exact for
    the analytic kind."""
    x = np.array(x, float).reshape(-1, 3)
    if spec["t"] == "H":
        p = harmonic(spec["f"], spec["g"])
        return np.array([p_eval(p, x, m) for m in MULTI[d]]).T.reshape(
            len(x), 2*d+1)
    if spec["t"] == "C":
        o = np.zeros((len(x), 2*d+1))
        if d == 0:
            o[:, 0] = x[:, 2]/spec["height"]
        elif d == 1:
            o[:, 2] = 1./spec["height"]
        return o
    out = np.zeros((len(x), 2*d+1))
    if spec["t"] == "G":
        r = np.random.RandomState(spec["seed"])
        for k in range(d+1):
            dat = r.uniform(-1, 1, tuple(spec["shape"]) + (2*k+1,))
        return trilinear(dat, (x - spec["origin"])/spec["spacing"])
    e = make_inner(spec)
    try:
        # straight from the geometry, without the electrode object
        from electrode import cexpressions as c
        n, h = spec["cover_nmax"], spec["cover_height"]
        if spec["t"] == "P":
            return c.polygon_potential(x, [np.array(p, float) for p in spec[
                "paths"]], 1., d, n, h, out)
        if spec["t"] == "Q":
            return c.point_potential(x, np.array(spec["points"], float),
                                     np.array(spec["areas"], float), 1., d, n,
                                     h, out)
        if spec["t"] == "M":
            return c.mesh_potential(x, e.points, e.edges, e.polygons,
                                    e.potentials, d, n, h, out)
    except (ImportError, AttributeError, TypeError):
        out[:] = 0.
    return e.potential(x, d, 1., out)


def trilinear(dat, u):
    """Values of a grid at fractional indices, continued constantly"""
    top = np.array(dat.shape[:3]) - 1.
    u = np.clip(u, 0, top)
    lo = np.minimum(np.floor(u), np.maximum(top - 1, 0)).astype(int)
    f = u - lo
    out = np.zeros((len(u), dat.shape[3]))
    for c in itertools.product((0, 1), repeat=3):
        w = np.prod(np.where(c, f, 1 - f), 1)
        i = np.minimum(lo + c, top.astype(int))
        out += w[:, None]*dat[i[:, 0], i[:, 1], i[:, 2]]
    return out


class Ref(object):
    """Reference model of a system: specs and voltages, nothing cached."""

    def __init__(self, specs, dcs, rfs, coeff=None):
        self.specs, self.dcs, self.rfs, self.coeff = specs, dcs, rfs, coeff

    def electrical(self, x, d, typ):
        v = self.dcs if typ == "dc" else self.rfs
        o = np.zeros((np.array(x, float).reshape(-1, 3).shape[0], 2*d+1))
        for s, vi in zip(self.specs, v):
            o += float(vi)*unit(s, x, d)
        return o

    def individual(self, x, d):
        n = np.array(x, float).reshape(-1, 3).shape[0]
        return np.array([unit(s, x, d) for s in self.specs]).reshape(
            len(self.specs), n, 2*d+1)

    def pseudo(self, x, d):
        tens = [None] + [expand(self.coeff*self.electrical(x, k, "rf"))
                         for k in range(1, d+2)]
        return leibniz_square(tens, d)

    def scale(self, x, d, typ="dc"):
        """magnitude bound for rounding: sum |v| |unit|"""
        v = self.dcs if typ == "dc" else self.rfs
        s = 0.
        for sp, vi in zip(self.specs, v):
            u = unit(sp, x, d)
            if u.size:
                s += abs(float(vi))*float(np.abs(u).max())
        return s


def gen_points(rng, n=None):
    n = n or rng.choice([1, 1, 2, 3])
    return [[rnd(rng, -1.5, 1.5), rnd(rng, -1.5, 1.5), rnd(rng, .4, 2.5)]
            for _ in range(n)]


def gen_volt(rng):
    r = rng.random()
    if r < .15:
        return 0.
    if r < .25:
        return rng.choice([1, -1, 2, 3])
    if r < .3:
        return rng.choice([1e-9, -1e-7, 1e6])
    return rnd(rng, -5, 5)
