"""Evaluating, searching, analysing and plotting change nothing."""
import copy
import logging
import warnings

import numpy as np

from .. import core, world
from ..core import HarnessError, Interrupter, count_lines, is_injected
from ..solver import SimSolver

ID = "C03"
RUNS = {"quick": 2600, "thorough": 45000}
BATCH = 10
RULE = ("A run performs a random sequence of read-only operations on a "
        "system, each undisturbed, with a failing electrode, failing solver, "
        "failing axes or an interrupt at a random executed line; after each "
        "one (and at every value a generator yields) voltages, names, order, "
        "geometry, arguments and process settings are compared with before. "
        "Non-trivial: at least one fault fired.")
REAL = ["System", "electrodes", "pattern constraints", "rfo", "Polygons",
        "cvxopt and matplotlib under fault wrappers"]
STUB = ["integrator of trajectories", "failing electrode wrapper",
        "failing solver wrapper"]
STATE_MEASURE = "distinct (operation, fault, outcome type, interrupted " \
    "function) tuples"
FAULTS = ["electrode-raises-before", "electrode-raises-mid", "electrode-nan",
          "electrode-plot-raises", "interrupt", "solver-raise",
          "solver-maxiters", "solver-status", "axes-raise", "bad-argument",
          "abandoned-generator"]
PROBES = ["optimum-found", "saddle-found", "minimum-found", "analysed",
          "plotted", "grouped", "converted"]
ASSUMPTIONS = []

ASYNC = ["KeyboardInterrupt", "MemoryError", "InjectedBase"]
EXC = ["Injected", "ValueError", "MemoryError", "KeyboardInterrupt",
       "InjectedBase", "FloatingPointError"]
MIX = ["elec", "indiv", "time", "pseudo", "pot", "minimum", "saddle", "modes",
       "mathieu", "analyze", "analyze", "traj", "ions", "read", "epot",
       "contour"]
PIX = ["optimize", "optimize", "shims", "shims", "solve", "group", "plot",
       "plotv", "contour", "polygons", "to_points", "mesh", "orient",
       "elec", "indiv", "analyze", "minimum", "read"]


# settings the caller may have made
PRE = {"err": [{"all": "ignore"}, {"divide": "raise"}, {"over": "ignore",
                                                        "invalid": "ignore"}],
       "print": [{"precision": 3}, {"suppress": True, "threshold": 50}],
       "solver": [{"show_progress": False}, {"maxiters": 60},
                  {"show_progress": True, "feastol": 1e-6}],
       "level": [10, 30],
       "rc": [{"lines.linewidth": 3.}, {"font.size": 7.}]}


def gen_constraint(rng):
    x = [world.rnd(rng, -.5, .5), world.rnd(rng, -.5, .5),
         world.rnd(rng, .6, 1.4)]
    d = rng.choice(["x", "y", "z", "xx", "yy", "xy", "yz", "xz", "zz", ""])
    k = rng.choice(["value", "value", "value", "min", "max", "offset"])
    v = rng.choice([0, 0, 1, 1., -1, .5]) if k == "value" else \
        rng.choice([-1., 0., 1.]) if k != "offset" else 0.
    rot = rng.choice([None, None, round(rng.uniform(-3, 3), 3)])
    if d == "" or rng.random() < .8:
        return ["pot", x, d, rot, k, v]
    return ["multi", [[x, d, rot, w] for d, w in ((d, 1.), ("x" if len(
        d) == 1 else "yy", rng.choice([-1, 2.])))], k, v]


def gen_op(rng, mode):
    op = rng.choice(MIX if mode == "mix" else PIX)
    o = {"op": op, "x": world.gen_points(rng, 1 if op in (
        "minimum", "saddle", "modes", "mathieu", "analyze", "traj", "ions")
        else None), "d": rng.randint(0, 3),
        "typ": rng.choice(["dc", "rf", "tot"]),
        "expand": rng.random() < .5,
        "axis": rng.choice([[0, 1, 2], [0, 1, 2], [0, 1], [2], [1, 2]]),
        "rot": rng.choice([None, None, round(rng.uniform(-3, 3), 3)]),
        "kind": rng.randint(0, 9), "frac": round(rng.random(), 4)}
    if op in ("optimize", "shims", "solve"):
        o["ctrs"] = [gen_constraint(rng) for _ in range(rng.randint(1, 3))]
        if rng.random() < .8:
            o["ctrs"][0] = ["pot", [.2, .1, 1.], rng.choice(
                ["x", "y", "z", "xx", "xy"]), None, "value", 1.]
        o["range"] = rng.choice([True, True, True, False])
        o["opts"] = rng.choice([{}, {}, {"maxiters": 3}, {"abstol": 1e-3},
                                {"maxiters": -1}, {"feastol": 1e-4}])
    r = rng.random()
    o["fault"] = None
    if r < .3:
        o["fault"] = ["int", round(rng.random(), 4), rng.choice(ASYNC)]
    elif r < .45:
        o["fault"] = ["el", rng.randint(0, 5), rng.choice(
            [0, 1, rng.randint(0, 30)]), rng.choice(
            ["before", "mid", "after"] + ["nan"]*(op != "contour")),
            rng.choice(EXC)]
    elif r < .7 and op in ("optimize", "shims", "solve"):
        o["fault"] = ["solver", rng.randint(0, 2), rng.choice([
            ["raise", rng.choice(EXC)], ["raise-after", rng.choice(EXC)],
            ["status", "primal infeasible"], ["lost", "dual infeasible"],
            ["maxiters", rng.randint(1, 4)], ["status", "unknown"]])]
    elif r > .92:
        o["fault"] = ["bad", rng.randint(0, 5)]
    return o


def gen(rng, idx):
    mode = rng.choice(["mix", "pix"])
    if mode == "mix":
        kinds = rng.choice(["H", "HC", "PQCMG", "HPQCMG"])
        els = [[world.gen_spec(rng, kinds), world.gen_volt(rng),
                world.gen_volt(rng)] for _ in range(rng.randint(1, 4))]
        if rng.random() < .6:
            # a trap with a minimum and a saddle near (0, 0, 1)
            els = [[{"t": "H", "f": [[2, 0, 1.], [0, 0, -1.]],
                     "g": [[0, 0, 2.]]}, 0., 4.],
                   [{"t": "H", "f": [[2, 0, -.5], [0, 2, 1.], [0, 3, -.4],
                                     [0, 0, -.5]],
                     "g": [[0, 0, 1.]]}, 1., 0.]] + els[:1]
            for i in range(len(els[2:])):
                els[2+i][1] *= 1e-3
                els[2+i][2] *= 1e-3
    else:
        els = []
        m = rng.choice([2, 3, 3, 4])
        for i in range(m):
            for j in range(m):
                x, y = i-m/2., j-m/2.
                els.append([{"t": "P", "paths": [[[x, y], [x+1, y], [
                    x+1, y+1], [x, y+1]]], "cover_nmax": 0,
                    "cover_height": 50.}, world.gen_volt(rng),
                    world.gen_volt(rng)])
    return {"mode": mode, "els": els, "faulty": rng.random() < .6,
            "pre": {k: rng.choice(v) for k, v in PRE.items()
                    if rng.random() < .2},
            "scale": rng.choice([.5, 1., 1.3]),
            "ops": [gen_op(rng, mode) for _ in range(rng.randint(1, 5))]}


SHRINK = ("ops", "els")


def shrink(plan):
    for k, o in enumerate(plan["ops"]):
        for key, v in (("fault", None), ("opts", {}), ("rot", None),
                       ("axis", [0, 1, 2])):
            if key in o and o[key] != v:
                c = copy.deepcopy(plan)
                c["ops"][k][key] = v
                yield c
        if len(o.get("ctrs", ())) > 1:
            for i in range(len(o["ctrs"])):
                c = copy.deepcopy(plan)
                del c["ops"][k]["ctrs"][i]
                yield c
    for k in plan["pre"]:
        yield dict(plan, pre={a: v for a, v in plan["pre"].items()
                              if a != k})
    if plan["faulty"] and not any((o["fault"] or [0])[0] == "el"
                                  for o in plan["ops"]):
        yield dict(plan, faulty=False)


def rot(a):
    if a is None:
        return None
    import electrode
    return electrode.euler_matrix(a, .4, -.3, "rzyz")[:3, :3]


# ------------------------------------------------------------ snapshots

SIMPLE = (int, float, complex, str, bytes, bool, type(None))


def snap(x, depth=0):
    """Deep comparable picture of a value."""
    if isinstance(x, np.ndarray):
        return ("a", str(x.dtype), x.shape, x.tobytes(), x.flags.writeable)
    if isinstance(x, np.generic):
        return ("g", str(x.dtype), x.tobytes())
    if isinstance(x, SIMPLE):
        return (type(x).__name__, repr(x))
    if isinstance(x, dict):
        return ("d", [(repr(k), snap(v, depth+1))
                      for k, v in sorted(x.items(), key=repr)])
    if isinstance(x, (list, tuple)) and depth < 8:
        return (type(x).__name__, [(id(i) if not isinstance(i, SIMPLE) else 0,
                                    snap(i, depth+1)) for i in x])
    from electrode.electrode import Electrode
    from electrode.pattern_constraints import Constraint
    if isinstance(x, (Electrode, Constraint)) and depth < 8:
        return (type(x).__name__, attributes(x, depth))
    return (type(x).__name__, id(x))


PRIVATE = {"calls", "script", "always", "on_call", "sim"}


def attributes(x, depth):
    keys = set(getattr(x, "__dict__", {}))
    for c in type(x).__mro__:
        s = getattr(c, "__slots__", ())
        keys.update([s] if isinstance(s, str) else s)
    out = []
    for k in sorted(keys - PRIVATE):
        if k.startswith("__"):
            continue
        try:
            v = getattr(x, k)
        except AttributeError:
            continue
        out.append((k, snap(v, depth+1)))
    return out


def settings():
    import cvxopt
    import matplotlib
    s = np.random.get_state()
    return {
        "floating point error handling": sorted(np.geterr().items()),
        "floating point error callback": repr(np.geterrcall()),
        "print options": sorted((k, repr(v)) for k, v
                                in np.get_printoptions().items()),
        "solver options": sorted((k, repr(v)) for k, v
                                 in cvxopt.solvers.options.items()),
        "solver options object": id(cvxopt.solvers.options),
        "warning filters": [tuple(map(repr, f)) for f in warnings.filters],
        "log level": (logging.getLogger("electrode").level,
                      logging.root.manager.disable,
                      len(logging.getLogger("electrode").handlers)),
        "plot settings": hash(tuple(sorted((k, repr(v)) for k, v
                                           in matplotlib.rcParams.items()))),
        "random state": (s[0], s[1].tobytes(), s[2:]),
    }


DEFAULTS = {}


def reset(pre):
    """Every run starts from the settings before anything ran, changed as
    the caller says."""
    import cvxopt
    import matplotlib
    log = logging.getLogger("electrode")
    if not DEFAULTS:
        DEFAULTS.update(err=np.geterr(), call=np.geterrcall(),
                        print=np.get_printoptions(),
                        solver=dict(cvxopt.solvers.options),
                        level=log.level, disable=logging.root.manager.disable,
                        rc=dict(matplotlib.rcParams))
    np.seterr(**DEFAULTS["err"])
    np.seterrcall(DEFAULTS["call"])
    np.set_printoptions(**DEFAULTS["print"])
    cvxopt.solvers.options.clear()
    cvxopt.solvers.options.update(DEFAULTS["solver"])
    log.setLevel(DEFAULTS["level"])
    logging.disable(DEFAULTS["disable"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        dict.update(matplotlib.rcParams, DEFAULTS["rc"])
    np.seterr(**pre.get("err", {}))
    np.set_printoptions(**pre.get("print", {}))
    cvxopt.solvers.options.update(pre.get("solver", {}))
    if "level" in pre:
        log.setLevel(pre["level"])
    matplotlib.rcParams.update(pre.get("rc", {}))


class Snapshot(object):
    def __init__(self, system, args):
        self.order = [id(e) for e in list(system)]
        self.els = [(e, e.name, attributes(e, 0)) for e in list(system)]
        self.names = [e.name for e in list(system)]
        self.coeff = getattr(system, "rf_coeff", None)
        # an argument may cache inside itself, but not change what is there
        self.args = [(k, a, snap(a)) for k, a in args]
        self.settings = settings()

    def diff(self, system, what=("system", "args", "settings")):
        if [id(e) for e in list(system)] != self.order:
            return "the order or set of electrodes changed"
        for e, name, at in self.els:
            now = dict((k, v) for k, v in attributes(e, 0))
            for k, v in at:
                if now.get(k) != v:
                    return "%s of electrode %r changed from %s to %s" % (
                        k, name, v, now.get(k))
        if getattr(system, "rf_coeff", None) != self.coeff:
            return "the pseudopotential scale changed"
        if "args" in what:
            for k, a, s in self.args:
                if not same(s, snap(a)):
                    return "argument %s changed" % k
        if "settings" in what:
            now = settings()
            for k in self.settings:
                if now[k] != self.settings[k]:
                    return "%s changed from %.150s to %.150s" % (
                        k, self.settings[k], now[k])
        return None


def same(a, b):
    """b has everything a has, unchanged (objects may have grown)."""
    if a == b:
        return True
    if (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 2
            and len(b) == 2 and a[0] == b[0] and isinstance(a[1], list)
            and isinstance(b[1], list)):
        if a[0] in ("list", "tuple"):
            return len(a[1]) == len(b[1]) and all(
                p[0] == q[0] and same(p[1], q[1])
                for p, q in zip(a[1], b[1]))
        if a[0] != "d":
            d = dict(b[1])
            return all(k in d and same(v, d[k]) for k, v in a[1])
    return False


# ------------------------------------------------------------ operations

class Axes(object):
    """Real axes whose n-th drawing call fails."""

    def __init__(self, ax, n, sim):
        self.ax, self.n, self.sim = ax, n, sim

    def __getattr__(self, k):
        v = getattr(self.ax, k)
        if callable(v) and k not in ("transData",):
            self.n -= 1
            if self.n == 0:
                self.sim.fault("axes-raise")
                raise core.make_exc("RuntimeError", "axes")
        return v


def axes(o, sim):
    import matplotlib.figure
    f = matplotlib.figure.Figure()
    import matplotlib.backends.backend_agg as b
    b.FigureCanvasAgg(f)
    ax = f.add_subplot(1, 1, 1)
    if o["fault"] and o["fault"][0] == "bad":
        return Axes(ax, 1 + o["fault"][1], sim)
    return ax


def constraint(c):
    from electrode import PotentialObjective, MultiPotentialObjective
    if c[0] == "pot":
        return PotentialObjective(np.array(c[1]), c[2], rotation=rot(c[3]),
                                  **{c[4]: c[5]})
    return MultiPotentialObjective(components=[
        PotentialObjective(np.array(x), d, rotation=rot(r), value=w)
        for x, d, r, w in c[1]], **{c[2]: c[3]})


def prepare_op(o, S, sim):
    """(arguments, function); all inputs are made here so that they can be
    compared afterwards."""
    from electrode import PatternRangeConstraint
    op = o["op"]
    bad = o["fault"][1] if o["fault"] and o["fault"][0] == "bad" else None
    x = np.array(o["x"], float)
    x1 = x[0].copy()
    d = o["d"] if bad is None else 9
    R = rot(o["rot"])
    kw = {} if R is None else {"coord": R}
    axis = list(o["axis"])
    if bad is not None and op not in ("plot", "plotv", "contour"):
        sim.fault("bad-argument")
    if op == "elec":
        return [("x", x)], lambda: S.electrical_potential(
            x, d, o["typ"] if o["typ"] != "tot" else "dc", o["expand"])
    if op == "indiv":
        return [("x", x)], lambda: S.individual_potential(x, d)
    if op == "time":
        return [("x", x)], lambda: S.time_potential(x, d, .3, o["expand"])
    if op == "pseudo":
        return [("x", x)], lambda: S.pseudo_potential(x, d)
    if op == "pot":
        return [("x", x)], lambda: S.potential(
            x, d, o["typ"] if bad is None else "nope")
    if op == "epot":
        e = list(S)[o["kind"] % len(S)]
        return [("x", x)], lambda: e.potential(x, min(d, 5), 2.)
    if op == "minimum":
        m = ["Newton-CG", "Nelder-Mead", "BFGS", "Powell"][o["kind"] % 4]
        opt = {"maxiter": [3, 40][o["kind"] % 2]}
        return [("x0", x1), ("axis", axis), ("coord", R),
                ("options", opt)], lambda: (S.minimum(
                    x1, axis, method=m if bad is None else "nope",
                    options=opt, **kw), sim.probe("minimum-found"))
    if op == "saddle":
        if bad is not None:
            axis.append(7)
        return [("x0", x1), ("axis", axis), ("coord", R)], lambda: (S.saddle(
            x1, axis, maxiter=15, **kw), sim.probe("saddle-found"))
    if op == "modes":
        return [("x", x1)], lambda: S.modes(x1, sorted=bool(o["kind"] % 2))
    if op == "mathieu":
        return [("x", x1)], lambda: S.mathieu(
            x1, .3, r=o["kind"] % 4 if bad is None else -1)
    if op == "ions":
        x0 = x1 + np.array([[.01, 0, 0], [0, .02, .01]])
        q = np.ones(2)
        return [("x0", x0), ("q", q)], lambda: S.ions(x0, q)
    if op == "read":
        return [], lambda: (S.names, S.dcs, S.rfs, S["e1"], S.electrode(0),
                            S["nope"], S[97] if bad is not None else 0)
    if op == "analyze":
        off = np.array([.01, 0, 0])
        so = np.array([0., .1, 0])
        kw = {"min_off": True} if o["kind"] % 2 else {"min_offset": off}
        if o["kind"] % 3 == 0:
            kw["saddle_offset"] = so

        def go():
            g = S.analyze_static(x1 if bad is None else [0, 0], m=1e-25,
                                 l=1e-4, o=1e8, **kw)
            for line in g:
                yield line
            sim.probe("analysed")
        return [("x", x1), ("off", off), ("so", so), ("kw", kw)], go
    if op == "traj":
        v = np.array([.1, .2, .3])

        def integ(ddx, n, t, p, q, t1):
            f = np.zeros_like(q)
            ddx(t, q, f)
            p += f*(t1-t)
            q += p*(t1-t)*1e-3
        return [("x0", x1), ("v0", v), ("axis", axis)], lambda: \
            S.trajectory(x1, v, axis, dt=.5, t1=2.,
                         integ=integ if bad is None else "nope")
    if op in ("optimize", "shims", "solve"):
        cs = [constraint(c) for c in o["ctrs"]]
        rg = PatternRangeConstraint(min=-1, max=1)
        lst = cs + ([rg] if o["range"] else [])
        opts = dict(o["opts"])
        if op == "optimize":
            a = [("constraints", lst), ("options", opts)]
            return a, lambda: (S.optimize(lst, verbose=bool(o["kind"] % 2),
                                          **opts),
                               sim.probe("optimum-found"))
        if op == "solve":
            loc = [list(cs) + [rg], [rg] + cs[:1]]
            glob = []
            a = [("local", loc), ("global", glob), ("options", opts)]
            return a, lambda: (S.solve(loc, glob, verbose=False, **opts),
                               sim.probe("optimum-found"))
        xcd = [(np.array(c[1]), rot(c[3]), c[2]) for c in o["ctrs"]
               if c[0] == "pot"][:2]
        objs = cs[:2]
        ctr = [rg] if o["kind"] % 2 else None
        a = [("x_coord_deriv", xcd), ("objectives", objs),
             ("constraints", ctr), ("options", opts)]
        return a, lambda: (S.shims(xcd, objs, ctr, **opts),
                           sim.probe("optimum-found"))
    if op == "group":
        th = [np.array([-.5, .5]), [0], None, [-1, 0, 1]][o["kind"] % 4]
        v = S.dcs if o["kind"] % 2 else None
        if bad is not None:
            v = np.zeros(3)
        return [("thresholds", th), ("voltages", v)], lambda: (
            S.group(th, v), sim.probe("grouped"))
    if op == "plot":
        ax = axes(o, sim)
        return [], lambda: (S.plot(ax, alpha=.5), sim.probe("plotted"))
    if op == "plotv":
        ax = axes(o, sim)
        u = S.rfs if o["kind"] % 2 else None
        um = [None, 2.][o["kind"] % 2]
        return [("u", u)], lambda: (S.plot_voltages(ax, u, um),
                                    sim.probe("plotted"))
    if op == "contour":
        from electrode import Grid
        ax = axes(o, sim)
        els = [getattr(e, "inner", e) for e in list(S)]
        els.sort(key=lambda e: not hasattr(e, "spacing"))
        if o["kind"] > 4 and els and hasattr(els[0], "spacing"):
            # taken from the grid of the first electrode
            from electrode import System
            T = System(els)
            T.rf_coeff = S.rf_coeff
            return [], lambda: (T.plot_contour(
                ax, None, o["typ"], "xyz"[o["kind"] % 3], .9,
                line_num=4), sim.probe("plotted"))
        g = Grid(center=np.array([.3, .2, 1.]), step=np.array([.2, .2, .2]),
                 shape=np.array([3, 2 + o["kind"] % 2, 4]))
        arrs = [("center", g.center), ("step", g.step), ("shape", g.shape)]
        return arrs, lambda: (S.plot_contour(
            ax, g, o["typ"], "xyz"[o["kind"] % 3], .9,
            fill=bool(o["kind"] % 2), line_num=4), sim.probe("plotted"))
    if op == "polygons":
        from electrode.polygons import Polygons
        fs = [lambda p: p.to_system(), lambda p: p.remove_overlaps(),
              lambda p: p.add_gaps(.1), lambda p: p.unify(),
              lambda p: p.within(2.), lambda p: p.gaps_union()]
        return [], lambda: (fs[o["kind"] % 6](Polygons.from_system(S)),
                            sim.probe("converted"))
    if op == "to_points":
        e = list(S)[o["kind"] % len(S)]
        e = getattr(e, "inner", e)
        return [], lambda: (e.to_points(), sim.probe("converted"))
    if op == "mesh":
        from electrode import MeshPixelElectrode, System
        T = System([getattr(e, "inner", e) for e in list(S)])
        return [("inner", list(T))], lambda: (
            MeshPixelElectrode.from_polygon_system(T).potential(
                x, min(o["d"], 3)), sim.probe("converted"))
    if op == "orient":
        return [], lambda: [e.orientations() for e in list(S)]
    raise HarnessError(op)


def execute(plan, sim):
    import contextlib
    import io
    C = world.classes()
    reset(plan["pre"])
    els = []
    for i, (spec, dc, rf) in enumerate(plan["els"]):
        e = world.make_inner(spec, name="e%d" % i, dc=dc, rf=rf)
        if plan["faulty"]:
            e = C.Faulty(e, name="e%d" % i, dc=dc, rf=rf)
        els.append(e)
    S = C.System(els)
    S.rf_coeff = plan["scale"]
    if not els:
        return
    for k, o in enumerate(plan["ops"]):
        f = o["fault"]
        script = {}
        if f and f[0] == "solver":
            script = {f[1]: f[2]}
        args, fn = prepare_op(o, S, sim)

        def check(where, what=("system", "args", "settings")):
            r = shot.diff(S, what)
            sim.check(r is None, "side-effect", lambda: "op %d %s %s: %s" % (
                k, o["op"], where, r))

        def go():
            r = fn()
            if hasattr(r, "__next__"):
                n = 0
                stop = int(o["frac"]*40) if o["kind"] < 3 else None
                for _ in r:
                    n += 1
                    if not tracing:
                        check("after value %d" % n)
                    if n == stop:
                        sim.fault("abandoned-generator")
                        r.close()
                        break
                return n
            return None
        tracing = True
        out = io.StringIO()
        shot = Snapshot(S, args)
        inter = None
        if f and f[0] == "int":
            state = np.random.get_state()
            saved = copy.copy(sim.faults), sim.nontrivial
            with contextlib.redirect_stdout(out), SimSolver(sim):
                tot = count_lines(go)
            sim.faults, sim.nontrivial = saved
            if o["op"] != "ions":
                check("(line count)")
            np.random.set_state(state)
            args, fn = prepare_op(o, S, sim)
            shot = Snapshot(S, args)
            if tot:
                inter = Interrupter(1 + int(f[1]*tot), f[2])
        tracing = bool(inter)
        if f and f[0] == "el" and plan["faulty"]:
            els[f[1] % len(els)].arm({f[2]: (f[3], f[4])}, sim)
        err = None
        try:
            with contextlib.redirect_stdout(out), SimSolver(sim, script):
                if inter:
                    inter.run(go)
                else:
                    go()
        except core.Violation:
            raise
        except BaseException as e:
            err = e
        for e in els:
            if plan["faulty"]:
                e.disarm()
        if inter and inter.fired:
            sim.fault("interrupt")
        sim.state(o["op"], f[0] if f else None, type(err).__name__
                  if err else None, inter.fired if inter else None)
        sim.log(o["op"], type(err).__name__ if err else None)
        check("with fault %s ended by %s" % (
            f, core.short_tb(err) if err else "return"))


def prepare(d):
    """Run every operation once, so that lazy imports are done."""
    import random
    import cvxopt.modeling      # noqa
    import matplotlib.pyplot    # noqa
    import scipy.optimize       # noqa
    sim = core.Sim()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for mode, ops in (("mix", MIX), ("pix", PIX)):
            rng = random.Random(mode)
            for op in sorted(set(ops)):
                for kind in range(6):
                    p = gen(rng, 0)
                    while p["mode"] != mode:
                        p = gen(rng, 0)
                    o = gen_op(rng, mode)
                    while o["op"] != op:
                        o = gen_op(rng, mode)
                    o.update(kind=kind, fault=None)
                    p["ops"], p["pre"] = [o], {}
                    try:
                        execute(p, sim)
                    except Exception:
                        pass
