"""Static analysis reports are current and cancellable."""
import copy
import logging
import re

import numpy as np

from .. import core, world
from ..core import Interrupter, count_lines, is_injected
from . import c07

ID = "C16"
RUNS = {"quick": 700, "thorough": 60000}
BATCH = 10
RULE = ("A run is a random sequence of analyses of a trap, yielded or logged, "
        "whole, abandoned, cancelled or thrown into after any line, two of "
        "them interleaved, with voltage changes and temporary overrides "
        "before and between the lines, failing electrodes, failing or "
        "disabled log handlers and interrupts at any executed line. Every "
        "line is parsed and compared with independently computed values. "
        "Non-trivial: a fault fired or voltages changed on the way.")
REAL = ["System.analyze_static, minimum, saddle, modes, mathieu, potential "
        "methods", "logging", "scipy.optimize"]
STUB = ["analytic harmonic electrodes", "failing electrode wrapper",
        "recording and failing log handlers"]
STATE_MEASURE = ("distinct (mode, lines delivered, event, fault, outcome)")
FAULTS = ["electrode-raises-before", "electrode-raises-mid",
          "electrode-raises-after", "interrupt", "handler-raises",
          "closed", "thrown-into", "abandoned"]
PROBES = ["whole-report", "logged", "logged-until-failure",
          "log-disabled", "saddle-found",
          "saddle-not-found", "saddle-failed-injected", "minimum-failed",
          "changed-before-start", "changed-midway", "inside-override",
          "interleaved", "axis-subset", "min-off", "offsets",
          "integer-point", "judged-modes", "mathieu-mode-judged",
          "modes-without-report", "reentrant-handler"]
ASSUMPTIONS = ["lines of a report during which voltages changed may show "
               "any of the voltages present since its first line"]
EXC = ["Injected", "ValueError", "MemoryError", "KeyboardInterrupt",
       "InjectedBase", "FloatingPointError", "RuntimeError"]
ASYNC = ["KeyboardInterrupt", "MemoryError", "InjectedBase"]
NUM = re.compile(r"(?<![A-Za-z_\d.])[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|"
                 r"\.\d+(?:[eE][-+]?\d+)?|nan|inf)(?![A-Za-z_\d²])")


def gen(rng, idx):
    surf = rng.random() < .12
    els, _ = c07.gen_surface(rng) if surf else c07.gen_trap(rng)
    if surf:
        els[0][2] = round(els[0][2]*10, 3)
    ops = []
    for _ in range(rng.randint(1, 5)):
        if rng.random() < .25:
            ops.append({"op": "volt", "i": rng.randint(0, 5),
                        "k": rng.choice(["dc", "rf"]),
                        "f": rng.choice([.8, 1.2, 1.05, -1.])})
            continue
        x = [round(rng.uniform(-.3, .3), 3) for _ in range(3)]
        if rng.random() < .1:
            x = [0, rng.randint(0, 1), 0]
        if surf:
            x = [round(rng.uniform(-.3, .3), 3), 0., 1.]
        o = {"op": "report", "x": x,
             "axis": rng.choice([None, None, [0, 1, 2], [1, 2], [0, 2],
                                 [2], [0]]),
             "m": rng.choice([1., 9., 25., 40.]), "z": rng.choice([1, 2]),
             "l": rng.choice([100e-6, 40e-6, 1e-3]),
             "f": rng.choice([1e6, 20e6, 1.5e6]),
             "kw": {}, "mode": rng.choice(["yield"]*3 + ["log"]),
             "events": [], "fault": None, "override": None, "tune": None}
        if rng.random() < .15:
            o.update(m=1., z=1, l=100e-6, f=1e6, std=True)
        if rng.random() < .6:
            o["tune"] = [rng.choice(["si", "si", "coeff"]),
                         rng.choice([.1, .2, .35, .6]),
                         rng.choice([.1, .3, .6, 1.5])]
        if rng.random() < .25:
            o["kw"]["min_off"] = True
        if rng.random() < .25:
            o["kw"]["min_offset"] = [round(rng.uniform(-.2, .2), 3)
                                     for _ in range(3)]
        if rng.random() < .25:
            o["kw"]["min_method"] = rng.choice(["Newton-CG", "Powell"])
        if rng.random() < .35:
            o["kw"]["saddle_offset"] = [0., 0., rng.choice([.1, -.1, .5])]
        if rng.random() < .2:
            o["override"] = [[rng.choice([.9, 1.1, 1.3]), rng.choice(
                ["dc", "rf"])]]
        if o["mode"] == "log":
            o["level"] = rng.choice(["DEBUG", "INFO", "WARNING"])
            o["handler"] = rng.choice(["record"]*4 + ["off", "raise",
                                                      "change"])
            o["at"] = rng.randint(0, 40)
            o["hexc"] = rng.choice(EXC)
        else:
            for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
                o["events"].append([rng.choice(
                    [0, 10] + [rng.randint(0, 42)]*4), rng.choice(
                    ["close", "abandon", "throw", "change", "change",
                     "change", "other"]), rng.randint(0, 5), rng.choice(
                    [.9, 1.1, 1.25]), rng.choice(["dc", "rf"])])
            o["events"].sort(key=lambda e: e[0])
        r = rng.random()
        if r < .25:
            o["fault"] = ["el", rng.randint(0, 5), rng.choice(
                [0, 1, rng.randint(0, 30), rng.randint(0, 400)]
                + [-rng.randint(1, 10)]*3),
                rng.choice(["before", "mid", "after"]), rng.choice(EXC)]
        elif r < .45:
            o["fault"] = ["int", round(rng.random(), 4), rng.choice(ASYNC)]
        ops.append(o)
    return {"els": els, "ops": ops}


SHRINK = ("ops", "els")


def shrink(plan):
    for k, o in enumerate(plan["ops"]):
        if o["op"] != "report":
            continue
        for key, v in (("fault", None), ("override", None), ("kw", {}), ("tune", None),
                       ("axis", None), ("m", 1.), ("z", 1), ("f", 1e6),
                       ("l", 100e-6)):
            if o[key] != v:
                c = copy.deepcopy(plan)
                c["ops"][k][key] = v
                yield c
        for i in range(len(o["events"])):
            c = copy.deepcopy(plan)
            del c["ops"][k]["events"][i]
            yield c


# ------------------------------------------------------------ the report

def skeleton(line):
    s = NUM.sub("#", line)
    s = re.sub(r"\[\s+", "[", s)
    s = re.sub(r"\s+\]", "]", s)
    return re.sub(r"\s+", " ", s)


def numbers(line):
    return [float(i) for i in NUM.findall(line)]


AMU, QE = 1.66053906660e-27, 1.602176634e-19
H = 6.62607015e-34


def expected(b, o, ref, trap, sad, mu_b):
    """The lines, as (skeleton, numbers or None, relative tolerance,
    magnitude)."""
    x = np.array(o["x"], float)
    m, q, l, om = o["m"]*AMU, o["z"]*QE, o["l"], 2*np.pi*o["f"]
    V = "[# # #]"
    out = []

    def add(s, v=(), rtol=1e-6, mag=None):
        if v is not None:
            v = np.atleast_1d(np.array(v, float)).ravel()
        out.append((skeleton(s), v, rtol, mag))

    def search(d, s, l):
        # results of searches: beyond their tolerance, and where they run
        # away, rounding decides
        far = np.abs(d).max() > 100.
        add(s, None if far else d, 1e-4, 1.)
        add(" (%s µm)" % V, None if far else d*l/1e-6, 1e-4, l/1e-6)
        return far

    add("parameters:")
    add(" f=# MHz, m=# amu, q=# qe, l=# µm, scale=# V'/V_SI",
        [o["f"]/1e6, o["m"], o["z"], l/1e-6, b.coeff], 6e-3)
    add("corrdinates:")
    add(" analyze point: " + V, x)
    add(" (%s µm)" % V, x*l/1e-6)
    d = trap - x
    search(d, " minimum is at offset: " + V, l)
    pdc = float(ref.electrical(x, 0, "dc")[0, 0])
    prf = float(ref.pseudo(x, 0)[0])
    add("potential:")
    add(" dc electrical: # eV", pdc, .06)
    add(" rf pseudo: # eV", prf, .06)
    if sad is None:
        add(" saddle not found")
    else:
        d = sad[0] - x
        far = search(d, " saddle offset: " + V, l)
        add(" saddle height: # eV", None if far else sad[1] - (pdc+prf), .06,
            1e-5*(abs(pdc)+abs(prf)+abs(sad[1])))
    add("force:")
    fd = ref.electrical(x, 1, "dc")[0]
    fr = ref.pseudo(x, 1)[0]
    sc = max(np.abs(fd).max(), np.abs(fr).max(), 1e-3)
    add(" dc electrical: %s eV/l" % V, fd, 1e-6, sc)
    add(" (%s eV/m)" % V, fd/l, 1e-6, sc/l)
    add(" rf pseudo: %s eV/l" % V, fr, 1e-6, sc)
    add(" (%s eV/m)" % V, fr/l, 1e-6, sc/l)
    add("modes:")
    hdc = world.expand(ref.electrical(x, 2, "dc"))[0]
    hrf = world.expand(ref.electrical(x, 2, "rf"))[0]
    hess = hdc + ref.pseudo(x, 2)[0]
    ew, ev = np.linalg.eigh(hess)
    hs = np.abs(hess).max()
    with np.errstate(all="ignore"):
        fpp = np.sqrt(q*ew/m)/(2*np.pi*l)
    mu, mb = floquet(16*b.coeff**2*hdc, 8*b.coeff**2*hrf)
    mu = mu/2
    fm = mu[:3].imag*om/(2*np.pi)
    # frequencies of exponents that coincide or vanish are decided by
    # rounding
    lo = np.concatenate([[0.], mu.imag[:4]])
    good = np.abs(mu.real).max() < 1e-9 and np.diff(lo).min() > 1e-4
    if good:
        # the code's own vectors are defined up to a phase
        for k in range(3):
            v = np.array(mu_b)[:, k]
            u = mb[:, k]
            n = np.linalg.norm(u)
            w = np.linalg.norm(v)
            b.sim.check(w <= n*(1+1e-6) and np.linalg.norm(
                v*np.vdot(u, u) - u*np.vdot(u, v)) <= 1e-5*w*n**2 + 1e-9,
                "wrong-mode", lambda: "mathieu mode %i is along %s, "
                "expected %s" % (k, v, u))
            b.sim.probe("mathieu-mode-judged")
    add(" pp+dc normal curvatures: " + V, ew, 1e-6, hs)
    add(" motion is bounded: True", ())
    out[-1] = ("bounded", np.abs(mu.real).max(), None, None)
    direct(b, x, hess, 16*b.coeff**2*hdc, 8*b.coeff**2*hrf)
    # gaps decide whether the vectors are defined
    gap = min(ew[1]-ew[0], ew[2]-ew[1])
    for nj, fj, ok in (("pseudopotential", fpp, gap > 1e-3*hs),
                       ("mathieu", fm, good)):
        add(" %s modes:" % nj)
        vs = ev if nj[0] == "p" else mu_b
        for k, c in enumerate("abc"):
            near = not good if nj[0] == "m" else abs(ew[k]) < 1e-6*hs
            out.append((skeleton(" %s: # MHz, %s" % (c, V)),
                        ("mode", nj, k, None if near else fj[k]/1e6,
                         vs[:, k] if ok else None), 6e-4, None))
        out.append((skeleton(" euler angles (rzxz): %s deg" % V),
                    ("euler", nj), None, None))
    se = 1e-9*ref.individual(x, 1)[:, 0, :]/l
    add(" heating for # nV²/Hz white uncorrelated on each electrode:", 1.)
    add(" field-noise psd: %s V²/(m² Hz)" % V, (se**2).sum(0), 1e-6)
    sem = (np.dot(se, mu_b)**2).sum(0)
    for k, c in enumerate("abc"):
        if not good:
            v = None
        else:
            v = [sem[k]*q**2/(4*m*H*fm[k]), sem[k]*fm[k]]
        add(" %s: ndot=# /s, S_E*f=# (V² Hz)/(m² Hz)" % c, v, 1e-3)
        out[-1] = out[-1][:3] + (1e-6*(se**2).sum()*max(
            1, q**2/(4*m*H*max(abs(fm[k]), 1.))),)
    return out


def direct(b, x, hess, A, Q):
    """The modes asked for without a report."""
    S, sim = b.S, b.sim
    hs = np.abs(hess).max()
    every = {}
    for srt in (False, True):
        ew, ev = S.modes(x, sorted=srt)
        sim.check(np.abs(np.dot(ev.T, ev) - np.eye(3)).max() < 1e-9
                  and np.abs(np.dot(hess, ev) - ev*ew).max() <= 1e-7*hs,
                  "wrong-mode", lambda: "modes %s %s of the curvature %s" % (
                      ew, ev.tolist(), hess.tolist()))
        sim.check(not srt or bool(np.all(np.diff(ew) >= 0)), "wrong-order",
                  lambda: "modes sorted: %s" % ew)
        for r in (1, 3):
            n = 3*(2*r+1)
            mu, mb = S.mathieu(x, scale=b.coeff, r=r, sorted=srt)
            sim.check(mb.shape == (2*n, len(mu)) and (
                len(mu) == 2*n or srt and np.sum(mu.imag > 1e-6)
                == every[r]), "wrong-mode", lambda: "%i exponents, vectors "
                "%s" % (len(mu), mb.shape))
            every[r] = np.sum(mu.imag > 1e-6)
            if srt:
                sim.check(bool(np.all(mu.imag >= 0) and np.all(np.diff(
                    mu.imag) >= 0)), "wrong-order", lambda: "exponents "
                    "sorted: %s" % mu)
            k = np.kron(2j*np.arange(-r, r+1), np.ones(3))
            h = np.kron(np.eye(2*r+1), A) + np.kron(
                np.eye(2*r+1, k=1) + np.eye(2*r+1, k=-1), Q)
            # for each frequency: positions, then velocities
            u = mb.reshape(2*r+1, 2, 3, -1)[:, 0].reshape(n, -1)
            d = (2*mu[None, :] - k[:, None])**2*u + np.dot(h, u)
            sc = (np.abs(2*mu).max() + 2*r)**2 + np.abs(h).sum(1).max()
            sim.check(bool(np.all(np.abs(d).max(0) <= 1e-7*sc*np.abs(
                mb).max(0))), "wrong-mode", lambda: "exponents %s do not "
                "solve the equation, by %s" % (mu, np.abs(d).max(0)))
    sim.probe("modes-without-report")


def floquet(A, Q, r=4):
    """Exponents with imaginary part >= 0 of x" + (A + 2 Q cos(2t)) x = 0 in
    ascending order, and the constant parts of the solutions' vectors"""
    n = 2*r+1
    k = np.kron(np.diag(2j*np.arange(-r, r+1)), np.eye(3))
    h = np.kron(np.eye(n), A) + np.kron(np.eye(n, k=1) + np.eye(n, k=-1), Q)
    m = np.block([[-k, np.eye(3*n)], [-h, -k]])
    mu, v = np.linalg.eig(m)
    i = np.nonzero(mu.imag >= 0)[0]
    i = i[mu[i].imag.argsort()]
    return mu[i], v[3*r:3*r+3, i]


def matches(line, want, seen):
    """None if the line is as wanted, else why not"""
    sk, v, rtol, mag = want
    if sk == "bounded":
        if line not in (" motion is bounded: True",
                        " motion is bounded: False"):
            return "is not about boundedness"
        t = line.endswith("True")
        if 1e-9 < v < 1e-6:
            return None
        return None if t == (v <= 1e-8) else "wrong boundedness"
    if skeleton(line) != sk:
        return "expected a line like %r" % sk
    if v is None:
        return None
    n = numbers(line)
    if isinstance(v, tuple) and v[0] == "mode":
        _, nj, k, f, vec = v
        seen.setdefault(nj, {})[k] = n[1:4]
        if f is not None and not near(n[0], f, rtol, 1e-7):
            return "frequency %s, expected %s" % (n[0], f)
        if vec is not None:
            g = np.array(n[1:4])
            if not (np.abs(g-vec).max() < 1e-5 or
                    np.abs(g+vec).max() < 1e-5):
                return "mode %s, expected %s" % (g, vec)
        return None
    if isinstance(v, tuple) and v[0] == "euler":
        M = np.array([seen[v[1]][k] for k in range(3)]).T
        # the convention's angles of any matrix: those of its last column
        # and row
        a, b, c = np.deg2rad(n)
        s, t = np.hypot(M[0, 2], M[1, 2]), np.hypot(M[2, 0], M[2, 1])
        for got, ok, want in (
                (a, s > 1e-3, np.arctan2(M[0, 2], -M[1, 2])),
                (b, np.hypot(t, M[2, 2]) > 1e-3, np.arctan2(t, M[2, 2])),
                (c, t > 1e-3, np.arctan2(M[2, 0], M[2, 1]))):
            if ok and min(s, t) > 1e-3 and abs(np.exp(1j*got)
                                               - np.exp(1j*want)) > 1e-4:
                return "euler angles %s are not those of the modes %s" % (
                    n, M.tolist())
        # of proper rotations, they give the modes
        if np.abs(np.dot(M, M.T) - np.eye(3)).max() > 1e-4 \
                or np.linalg.det(M) < .5:
            return None
        R = rz(a).dot(rx(b)).dot(rz(c))
        if np.abs(R-M).max() > 1e-4:
            return "euler angles %s do not give the modes" % n
        return None
    if len(n) != len(v):
        return "has %d numbers, not %d" % (len(n), len(v))
    m = mag if mag is not None else (np.abs(v[np.isfinite(v)]).max()
                                     if np.isfinite(v).any() else 1.)
    for a, b in zip(n, v):
        # arrays are printed with 8 decimals, small ones with an exponent
        atol = 3e-8*m if len(v) == 3 else 0
        if len(v) == 3 and np.abs(n).max() >= 1e-4:
            atol += 6e-9
        if rtol < 3e-4:
            ok = near(a, b, rtol, atol + rtol*m)
        else:
            ok = near(a, b, rtol, 1e-12 + (mag or 0))
        if not ok:
            return "%s, expected %s" % (a, b)
    return None


def rz(a):
    return np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0],
                     [0, 0, 1.]])


def rx(a):
    return np.array([[1., 0, 0], [0, np.cos(a), -np.sin(a)],
                     [0, np.sin(a), np.cos(a)]])


def near(a, b, rtol, atol):
    if np.isnan(a) or np.isnan(b):
        return bool(np.isnan(a) and np.isnan(b))
    return a == b or abs(a-b) <= rtol*abs(b) + atol


# ------------------------------------------------------------ running

class Bench(object):
    def __init__(self, plan):
        C = world.classes()
        self.specs = [e[0] for e in plan["els"]]
        self.objs = [C.Faulty(world.make_inner(s, name="e"), name="e%d" % i,
                              dc=dc, rf=rf)
                     for i, (s, dc, rf) in enumerate(plan["els"])]
        self.S = C.System(self.objs)

    def prepare(self, o, sim, k):
        """Choose voltages and length scale of the pseudopotential"""
        self.coeff = self.S.rf_coeff = 1.
        self.sim = sim
        t = o["tune"]
        if not t:
            return
        m, q, l, om = o["m"]*AMU, o["z"]*QE, o["l"], 2*np.pi*o["f"]
        x = np.array(o["x"], float)
        ref = world.Ref(self.specs, *self.volts(), 1.)
        hrf = np.abs(world.expand(ref.electrical(x, 2, "rf"))[0]).max()
        hdc = np.abs(world.expand(ref.electrical(x, 2, "dc"))[0]).max()
        if not hrf:
            return
        if t[0] == "si":
            self.coeff = self.S.rf_scale(m, q, l, om)
            sim.check(near(self.coeff, np.sqrt(q/m)/(2*l*om), 1e-6, 0)
                      and self.S.rf_coeff == self.coeff, "wrong-scale",
                      "op %d: rf_scale gives %s" % (k, self.coeff))
            f = t[1]/(8*self.coeff**2*hrf)
            for e in self.objs:
                e.rf *= f
        else:
            self.coeff = self.S.rf_coeff = float(np.sqrt(t[1]/(8*hrf)))
        if hdc:
            f = t[2]*t[1]**2/2/(16*self.coeff**2*hdc)
            for e in self.objs:
                e.dc *= f

    def start(self, o, log=None):
        x = np.array(o["x"])
        if o["x"][0]:
            x = list(o["x"])
        kw = dict((k, np.array(v) if isinstance(v, list) else v)
                  for k, v in o["kw"].items())
        if o["axis"] is not None:
            kw["axis"] = tuple(o["axis"])
        if log is not None:
            kw["log"] = log
        if not o.get("std"):
            kw.update(m=o["m"]*AMU, q=o["z"]*QE, l=o["l"], o=2*np.pi*o["f"])
        return self.S.analyze_static(x, **kw)

    def volts(self):
        return ([e.dc for e in self.objs], [e.rf for e in self.objs])

    def want(self, o, volts):
        """expected lines for these voltages, None where the search for the
        minimum fails"""
        now = self.volts()
        set_volts(self.objs, volts)
        try:
            S = self.S
            ref = world.Ref(self.specs, volts[0], volts[1], self.coeff)
            x = np.array(o["x"], float)
            axis = (0, 1, 2) if o["axis"] is None else tuple(o["axis"])
            kw = o["kw"]
            failed = None
            trap = x
            with np.errstate(all="ignore"):
                if not kw.get("min_off"):
                    try:
                        trap = S.minimum(x + kw.get("min_offset", 0), axis,
                                         method=kw.get("min_method",
                                                       "Nelder-Mead"))
                    except Exception as e:
                        failed = type(e).__name__
                try:
                    sad = S.saddle(x + kw.get("saddle_offset", 0), axis)
                except Exception:
                    sad = None
                mu, mb = S.mathieu(x, scale=self.coeff, r=4, sorted=True)
                modes = mb[len(mb)//2-3:len(mb)//2, :3].real
                lines = expected(self, o, ref, trap, sad, modes)
            return lines, failed, sad is not None
        finally:
            set_volts(self.objs, now)


def set_volts(objs, volts):
    for e, d, r in zip(objs, *volts):
        e.dc, e.rf = d, r


class Handler(logging.Handler):
    """A log sink that may raise or do something else at a record."""

    def __init__(self, at=None, fn=None):
        logging.Handler.__init__(self, 0)
        self.lines, self.levels = [], []
        self.at, self.fn = at, fn

    def handle(self, record):
        if self.at is not None and len(self.lines) == self.at:
            self.fn()
        self.lines.append(record.getMessage())
        self.levels.append(record.levelno)


def execute(plan, sim):
    if not plan["els"]:
        return
    b = Bench(plan)
    for k, o in enumerate(plan["ops"]):
        if o["op"] == "volt":
            e = b.objs[o["i"] % len(b.objs)]
            setattr(e, o["k"], getattr(e, o["k"])*o["f"])
            continue
        b.prepare(o, sim, k)
        home = b.volts()
        ctx = None
        if o["override"]:
            f, kind = o["override"][0]
            v = [i*f for i in home[0 if kind == "dc" else 1]]
            ctx = b.S.with_voltages(**{kind + "s": v})
            ctx.__enter__()
            sim.probe("inside-override")
        try:
            if o["mode"] == "log":
                run_log(b, o, sim, k)
            else:
                run_yield(b, o, sim, k)
        finally:
            for e in b.objs:
                e.disarm()
            if ctx is not None:
                set_volts(b.objs, home)
                ctx.__exit__(None, None, None)
        set_volts(b.objs, home)
        # and a clean one
        if sum(sim.faults.values()) and k == len(plan["ops"])-1:
            clean = dict(o, events=[], fault=None, mode="yield",
                         override=None)
            run_yield(b, clean, sim, k)


def arm(b, o, sim, fn):
    """fault of this report: (interrupter, electrode)"""
    f = o["fault"]
    it = e = None
    if f and f[0] == "int":
        tot = count_lines(fn)
        if tot:
            it = Interrupter(1 + int(f[1]*tot), f[2])
    if f and f[0] == "el":
        e = b.objs[f[1] % len(b.objs)]
        at = f[2]
        if at < 0:
            # counted from the end of a report
            e.calls = 0
            try:
                with np.errstate(all="ignore"):
                    fn()
            except ValueError:
                pass
            at = max(0, e.calls + at)
        e.arm({at: (f[3], f[4])}, sim)
    return it


def run_yield(b, o, sim, k):
    where = "op %d" % k
    probe_axis(o, sim)
    it = arm(b, o, sim, lambda: list(b.start(o)))
    states = []          # voltages since the first line
    wants = {}
    nosaddle = [False]
    home = b.volts()

    def want(v):
        key = repr(v)
        if key not in wants:
            cfg = [(e, e.script, e.calls) for e in b.objs]
            for e in b.objs:
                e.script = {}
            wants[key] = b.want(o, v)
            for e, s, c in cfg:
                e.script, e.calls = s, c
        w, fl, sd = wants[key]
        if sd and nosaddle[0]:
            # as if the search had failed
            w = w[:10] + [(" saddle not found", np.zeros(0), 1e-6,
                           None)] + w[13:]
        return w, fl, sd

    try:
        gen = b.start(o)
    except BaseException as e:
        # judged as if the first line had failed
        gen = failing(e)
    sim.check(hasattr(gen, "close") and hasattr(gen, "throw"),
              "not-cancellable", where)
    other = None
    lines = []
    seen = [{}]
    events = list(o["events"])
    cut = False
    offset = 0
    started = False
    while True:
        while events and events[0][0] <= len(lines):
            ev = events.pop(0)
            if ev[1] == "change":
                e = b.objs[ev[2] % len(b.objs)]
                setattr(e, ev[4], getattr(e, ev[4])*ev[3])
                sim.nontrivial = True
                sim.probe("changed-midway" if started else
                          "changed-before-start")
            elif ev[1] == "other":
                # another report of the same system, in between
                if other is None:
                    other = b.start(dict(o, kw={"min_off": True}))
                    sim.probe("interleaved")
                cfg = [(e, e.script, e.calls) for e in b.objs]
                for e in b.objs:
                    e.script = {}
                with np.errstate(all="ignore"):
                    next(other, None)
                for e, s, c in cfg:
                    e.script, e.calls = s, c
            else:
                err = None
                exc = core.make_exc("Injected", "thrown")
                sim.fault({"close": "closed", "abandon": "abandoned",
                           "throw": "thrown-into"}[ev[1]])
                if ev[1] == "close":
                    gen.close()
                elif ev[1] == "throw":
                    try:
                        gen.throw(exc)
                    except BaseException as e:
                        err = e
                    sim.check(err is exc, "failure-swallowed", lambda:
                              "%s: after %d lines %r was thrown in, %r came "
                              "back" % (where, len(lines), exc, err))
                if ev[1] != "abandon":
                    sim.check(next(gen, None) is None, "undead",
                              where + ": goes on after its end")
                cut = True
        if cut:
            break
        before = sum(sim.faults.values())
        v = b.volts()
        if v not in states:
            states.append(v)
        res = err = None
        started = True
        try:
            with np.errstate(all="ignore"):
                res = it.run(lambda: next(gen)) if it else next(gen)
        except BaseException as e:
            err = e
        if it and it.fired:
            sim.fault("interrupt")
            it = None
        fired = sum(sim.faults.values()) - before
        # what may come now
        cands = [want(s) for s in states]
        n = len(lines)
        if fired:
            f = o["fault"]
            exc = f[4] if f[0] == "el" else f[2]
            soft = issubclass(core.EXC[exc], Exception)
            in_saddle = n == 10
            sim.log("fault", n, type(err).__name__ if err else "line")
            sim.state("yield", n, f[0], exc, type(err).__name__)
            if err is None and soft and in_saddle:
                sim.check(res == " saddle not found", "failure-swallowed",
                          lambda: "%s: line %d is %r after %s" % (
                              where, n, res, f))
                sim.probe("saddle-failed-injected")
                lines.append(res)
                nosaddle[0] = True
                continue
            sim.check(not in_saddle or not soft or exc == "MemoryError",
                      "saddle-failure", lambda: "%s: %s in the saddle search"
                      " ends the report" % (where, exc))
            sim.check(err is not None, "failure-swallowed", lambda: "%s: "
                      "line %d is %r after %s" % (where, n, res, f))
            sim.check(is_injected(err), "failure-replaced", lambda: "%s: "
                      "line %d: %s after %s" % (where, n, core.short_tb(err),
                                                f))
            sim.check(next(gen, None) is None, "undead", where)
            return
        if isinstance(err, StopIteration):
            sim.check(any(n == len(c[0]) for c in cands)
                      and not all(c[1] for c in cands),
                      "truncated", lambda: "%s: ends after %d lines: %r" % (
                          where, n, lines[-1:]))
            sim.probe("whole-report")
            sim.state("yield", n, "end", len(states))
            break
        if err is not None:
            sim.check(any(c[1] == type(err).__name__ and n == 5
                          for c in cands), "unexpected-failure", lambda:
                      "%s: line %d: %s" % (where, n, core.short_tb(err)))
            sim.probe("minimum-failed")
            sim.state("yield", n, type(err).__name__)
            break
        lines.append(res)
        why = []
        ok = False
        # each set of voltages may have a different number of saddle lines
        for c in cands:
            i = align(c[0], n, lines)
            if i is None or i >= len(c[0]):
                why.append("no such line")
                continue
            s = {key: dict(val) for key, val in seen[0].items()}
            w = matches(res, c[0][i], s)
            if w is None or (len(cands) > 1 and mixed(c[0][i], res)):
                ok = True
                seen[0] = s
                break
            why.append(w)
        sim.check(ok, "wrong-line", lambda: "%s: line %d %r: %s" % (
            where, n, res, "; ".join(why)))
        if "saddle" in res and "height" in res:
            sim.probe("saddle-found")
        if res == " saddle not found":
            sim.probe("saddle-not-found")
    sim.log("report", k, len(lines), [skeleton(i) for i in lines[-1:]])
    if " motion is bounded: True" in lines:
        sim.probe("judged-modes")
    v = b.volts()
    for e in b.objs:
        e.disarm()
    set_volts(b.objs, home)


def failing(exc):
    raise exc
    yield


def align(want, n, lines):
    """index of the wanted line for the n-th line"""
    sad_w = 3 if len(want) > 10 and want[10][0] != " saddle not found" else 1
    if n < 10:
        return n
    sad_g = 1 if lines[10] == " saddle not found" else 3
    if n < 10 + sad_g:
        return n if sad_w == sad_g else None
    return n - sad_g + sad_w


def mixed(want, line):
    """lines that combine values of different times"""
    if want[0] == "bounded":
        return "bounded" in line
    return skeleton(line) == want[0] and (
        "saddle height" in want[0] or "ndot" in want[0]
        or isinstance(want[1], tuple) and want[1][0] == "mode")


def probe_axis(o, sim):
    for name, c in (("axis-subset", o["axis"] is not None
                     and len(o["axis"]) < 3),
                    ("min-off", o["kw"].get("min_off")),
                    ("offsets", "min_offset" in o["kw"]
                     or "saddle_offset" in o["kw"]),
                    ("integer-point", all(isinstance(i, int)
                                          for i in o["x"]))):
        if c:
            sim.probe(name)


class Silent(object):
    """counts no faults"""

    def fault(self, *a):
        pass

    log = probe = state = fault


def run_log(b, o, sim, k):
    where = "op %d (logged)" % k
    probe_axis(o, sim)
    log = logging.getLogger("electrode")
    level = getattr(logging, o["level"])
    saved = log.level, log.handlers[:], log.propagate, log.disabled
    home = b.volts()
    raised = []

    def act():
        if o["handler"] == "raise":
            sim.fault("handler-raises")
            raised.append(1)
            raise core.make_exc(o["hexc"], "handler")
        if o["handler"] == "change":
            # a handler that reads the system
            sim.probe("reentrant-handler")
            for e in b.objs:
                e.inner.potential(np.zeros((1, 3)), 0)
            list(zip(range(3), b.start(dict(o, kw={"min_off": True}))))

    h = Handler(o["at"] if o["handler"] in ("raise", "change") else None,
                act)
    twin = None
    with np.errstate(all="ignore"):
        it = arm(b, o, sim, lambda: list(b.start(o)))
        if o["fault"] and o["fault"][0] == "el" and o["handler"] == "record":
            # what a reader of the same report gets before the same failure
            e = b.objs[o["fault"][1] % len(b.objs)]
            script, twin = dict(e.script), []
            e.arm(script, Silent())
            try:
                for line in b.start(o):
                    twin.append(line)
            except BaseException:
                pass
            e.arm(script, sim)
    before = sum(sim.faults.values())
    res = err = None
    log.handlers[:] = [h]
    log.propagate, log.disabled = False, False
    log.setLevel(logging.CRITICAL if o["handler"] == "off" else logging.DEBUG)
    try:
        with np.errstate(all="ignore"):
            if it:
                res = it.run(lambda: b.start(o, log=level))
            else:
                res = b.start(o, log=level)
    except BaseException as e:
        err = e
    finally:
        log.setLevel(saved[0])
        log.handlers[:] = saved[1]
        log.propagate, log.disabled = saved[2:]
        for e in b.objs:
            e.disarm()
    if it and it.fired:
        sim.fault("interrupt")
    fired = sum(sim.faults.values()) - before
    lines, failed, sd = b.want(o, home)
    if failed:
        lines = lines[:5]
    sim.log("logged", len(h.lines), type(err).__name__ if err else "ok")
    sim.state("log", o["handler"], len(h.lines), bool(fired),
              type(err).__name__ if err else "ok")
    soft = fired and o["fault"] and issubclass(core.EXC[
        o["fault"][4 if o["fault"][0] == "el" else 2]], Exception)
    sim.check(all(i == level for i in h.levels), "wrong-level",
              lambda: "%s: %s" % (where, sorted(set(h.levels))))
    if o["handler"] == "off":
        sim.probe("log-disabled")
        sim.check(not h.lines, "wrong-level", where)
    nosad = False
    seen = {}
    for n, line in enumerate(h.lines):
        i = n if not nosad or n <= 10 else n + 2*sd
        if n == 10 and line == " saddle not found" and sd and soft:
            nosad = True
            continue
        sim.check(i < len(lines), "wrong-line", lambda: "%s: extra line %r"
                  % (where, line))
        w = matches(line, lines[i], seen)
        sim.check(w is None, "wrong-line", lambda: "%s: line %d %r: %s" % (
            where, n, line, w))
    if fired:
        if err is None:
            sim.check(soft and (nosad or not sd or o["handler"] == "off"),
                      "failure-swallowed", lambda: "%s: succeeded after "
                      "%s" % (where, o["fault"] or o["hexc"]))
            if not raised and h.lines:
                sim.check(" saddle not found" in h.lines,
                          "failure-swallowed", where)
            sim.check(not raised, "failure-swallowed", where)
        elif failed and type(err).__name__ == failed and not is_injected(err):
            pass
        else:
            sim.check(is_injected(err), "failure-replaced", lambda: "%s: %s"
                      % (where, core.short_tb(err)))
        if twin is not None:
            sim.probe("logged-until-failure")
            sim.check(len(h.lines) == len(twin), "unlike-yielded", lambda:
                      "%s: %d lines logged until %s, but %d yielded" % (
                          where, len(h.lines), o["fault"], len(twin)))
        return
    if failed:
        sim.check(type(err).__name__ == failed, "unexpected-failure",
                  lambda: "%s: %s" % (where, err))
        return
    sim.check(err is None, "unexpected-failure", lambda: "%s: %s" % (
        where, core.short_tb(err)))
    if o["handler"] != "off":
        sim.check(len(h.lines) == len(lines), "truncated", lambda: "%s: %d "
                  "of %d lines" % (where, len(h.lines), len(lines)))
        sim.probe("logged")
