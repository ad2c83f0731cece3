"""Seeded search over simulated runs: sharding, isolation, minimisation,
replay files, evidence."""
import copy
import hashlib
import importlib
import json
import mmap
import os
import pickle
import random
import select
import signal
import struct
import subprocess
import sys
import time
import traceback
import zlib
from collections import Counter

from . import build as _build
from . import core
from .core import HarnessError, Sim, Violation

VERIF = _build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.json")
RUN_TIMEOUT = float(os.environ.get("DST_RUN_TIMEOUT", "100"))


# ---------------------------------------------------------------- set-up

def setup_env():
    for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
    os.environ["MPLBACKEND"] = "Agg"
    os.environ.setdefault("MPLCONFIGDIR", os.path.join(_build.ROOT, "mpl"))
    os.makedirs(os.environ["MPLCONFIGDIR"], exist_ok=True)


def load(prop):
    """Build and import the code under test and the workload module."""
    setup_env()
    d = _build.build()
    sys.path.insert(0, d)
    sys.dont_write_bytecode = True
    core.set_pkg(d)
    import warnings
    warnings.simplefilter("ignore")
    mod = importlib.import_module("dst.props." + prop.lower())
    import electrode
    if not os.path.abspath(electrode.__file__).startswith(d + os.sep):
        raise HarnessError("imported the wrong tree: %s" % electrode.__file__)
    if hasattr(mod, "prepare"):
        mod.prepare(d)
    return mod


def known_list(prop):
    try:
        with open(KNOWN) as f:
            k = json.load(f)
    except FileNotFoundError:
        return []
    return [e for e in k.get("known", []) if e["property"] == prop]


def gen_plan(mod, seed, idx):
    rng = random.Random("%s/%s/%s" % (mod.ID, seed, idx))
    plan = mod.gen(rng, idx)
    plan["_id"] = "%s/%s/%s" % (mod.ID, seed, idx)
    # a plan is what its JSON says, nothing else
    return json.loads(json.dumps(plan))


# ---------------------------------------------------------------- one run

def run_plan(mod, plan, keep=False, known=()):
    import numpy as np
    import logging
    import warnings
    sim = Sim(keep)
    body = json.dumps({k: v for k, v in plan.items() if k != "_id"},
                      sort_keys=True)
    h = zlib.crc32(body.encode())
    np.random.seed(h & 0x7fffffff)
    random.seed(h)
    res = {"viol": None, "error": None, "known": None,
           "plan_hash": hashlib.sha1(body.encode()).hexdigest()[:16]}
    sim.log("plan", res["plan_hash"])
    logging.disable(logging.NOTSET)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            mod.execute(plan, sim)
        except Violation as v:
            res["viol"] = (v.kind, v.msg[:1500])
        except core.Skip:
            pass
        except HarnessError as e:
            res["error"] = short(e)
        except BaseException as e:
            if core.from_package(e):
                res["viol"] = ("unexpected-exception",
                               core.short_tb(e)[:1500])
            elif isinstance(e, (TypeError, AttributeError, ValueError,
                                LookupError, ArithmeticError)):
                # what the package gave back can not be used at all
                res["viol"] = ("unusable-result", core.short_tb(e)[:1500])
            else:
                res["error"] = short(e)
    if res["viol"]:
        for k in known:
            if k["kind"] == res["viol"][0] and k.get("match", "") in res[
                    "viol"][1]:
                res["known"] = k["id"]
                res["viol"] = None
                break
    sim.log("end", res["viol"][0] if res["viol"] else None)
    res.update(digest=sim.digest(), events=sim.n, faults=sim.faults,
               probes=sim.probes, states=sim.states, now=sim.now,
               checks=sim.checks, nontrivial=sim.nontrivial,
               log=sim.events if keep else None)
    return res


def short(e):
    return "".join(traceback.format_exception(type(e), e, e.__traceback__)
                   )[-3000:]


# ---------------------------------------------------------------- children

def _child(mod, plans, fd, keep, known, budget=None):
    try:
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        devnull = os.open(os.devnull, os.O_RDWR)
        os.dup2(devnull, 0)
        os.dup2(devnull, 1)
        if not os.environ.get("DST_DEBUG"):
            os.dup2(devnull, 2)
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        if getattr(mod, "APART", False):
            core.apart.start()
        for p in plans:
            if budget:
                r = _with_budget(mod, p, keep, known, budget)
            else:
                r = run_plan(mod, p, keep, known)
            b = pickle.dumps(r, 4)
            b = struct.pack(">I", len(b)) + b
            while b:
                b = b[os.write(fd, b):]
            if r["viol"]:
                break
    except BaseException:
        try:
            traceback.print_exc()
        finally:
            os._exit(3)
    os._exit(0)


class _Budget(Exception):
    pass


def _with_budget(mod, plan, keep, known, budget):
    """Run with a bound on the number of lines the package may execute."""
    n = [0]

    def local(frame, event, arg):
        n[0] += 1
        if n[0] > budget:
            n[0] = -10**12
            raise Violation("no-progress", "more than %d lines executed in "
                            "the package without finishing" % budget)
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(core.PKG) else None
    import threading
    threading.settrace(glob)
    sys.settrace(glob)
    try:
        return run_plan(mod, plan, keep, known)
    finally:
        sys.settrace(None)
        threading.settrace(None)


class Child(object):
    def __init__(self, mod, plans, keep=False, known=(), budget=None,
                 tag=None):
        self.plans, self.tag = plans, tag
        self.results, self.buf = [], b""
        r, w = os.pipe()
        self.flag = mmap.mmap(-1, 1)
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(r)
            core.reference.flag = self.flag
            _child(mod, plans, w, keep, known, budget)
        os.close(w)
        self.fd = r
        self.last = time.monotonic()
        self.status = None

    def read(self):
        """Consume available output; True when the child has finished."""
        try:
            b = os.read(self.fd, 1 << 20)
        except OSError:
            b = b""
        if not b:
            os.close(self.fd)
            _, st = os.waitpid(self.pid, 0)
            self.status = st
            return True
        self.buf += b
        self.last = time.monotonic()
        while len(self.buf) >= 4:
            n = struct.unpack(">I", self.buf[:4])[0]
            if len(self.buf) < n + 4:
                break
            self.results.append(pickle.loads(self.buf[4:4 + n]))
            self.buf = self.buf[4 + n:]
        return False

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        while not self.read():
            pass

    def outcome(self):
        """(kind, msg) of the first violation or None; HarnessError."""
        for r in self.results:
            if r["error"]:
                raise HarnessError(r["error"])
            if r["viol"]:
                return r["viol"]
        if len(self.results) < len(self.plans):
            if os.WIFSIGNALED(self.status):
                s = os.WTERMSIG(self.status)
                if s == signal.SIGKILL:
                    raise HarnessError("child killed")
                if self.flag[0]:
                    return None     # died in a reference computation
                return ("process-crash", "the process died with signal %d" % s)
            raise HarnessError("child exit %r" % (self.status,))
        return None


def exec_fresh(mod, plans, keep=False, known=(), budget=None,
               timeout=RUN_TIMEOUT):
    """Run plans in order in a fresh process image; ((kind,msg)|None, res)."""
    c = Child(mod, plans, keep, known, budget)
    while True:
        left = timeout - (time.monotonic() - c.last)
        if left <= 0:
            c.kill()
            return ("hang", "no result within %gs" % timeout), c.results
        rd, _, _ = select.select([c.fd], [], [], left)
        if rd and c.read():
            break
    return c.outcome(), c.results


def _repeats(mod, f, known, st):
    """A violation must show again in a fresh process. (Far searches amplify
    the rounding of differently aligned arrays.) Code that often violates the
    property in ways that never repeat is reported all the same."""
    _, k, plans, (kind, msg) = f
    if kind == "hang":
        # slow, or endless?
        v, _ = exec_fresh(mod, plans[k:k+1], known=known, budget=getattr(
            mod, "LINE_BUDGET", 4000000), timeout=240)
        if v:
            return True
        st["unrepeated"].append("%s %s: %s" % (plans[k].get("_id"), kind,
                                               msg))
        return False
    for cand in (plans[k:k+1], plans[:k+1]):
        for _ in range(2):
            if exec_fresh(mod, cand, known=known)[0]:
                return True
    st["unrepeated"].append("%s %s: %s" % (plans[k].get("_id"), kind, msg))
    return len(st["unrepeated"]) > 2


def search(mod, seed, nruns, workers, wall, known, batch=None, first=0,
           collect=None):
    """Run indices first..first+nruns; returns (stats, failure)."""
    batch = batch or getattr(mod, "BATCH", 8)
    t0 = time.monotonic()
    st = {"runs": 0, "faults": Counter(), "probes": Counter(),
          "states": set(), "now": 0.0, "checks": 0, "plans": set(),
          "nontrivial": set(), "events": 0, "samples": [], "known": Counter(),
          "capped": False, "digests": set(), "unrepeated": []}
    nb = -(-nruns // batch)
    todo, running, failures = list(range(nb-1, -1, -1)), {}, []
    try:
        while True:
            while (len(running) < workers and todo and not failures
                   and not st["capped"]):
                if time.monotonic() - t0 > wall:
                    st["capped"] = True
                    break
                nxt = todo.pop()
                lo = first + nxt*batch
                hi = min(first + nruns, lo + batch)
                plans = [gen_plan(mod, seed, i) for i in range(lo, hi)]
                c = Child(mod, plans, known=known, tag=(nxt, lo))
                running[c.fd] = c
            if not running:
                failures = [f for f in sorted(failures, key=lambda f: f[:2])
                            if _repeats(mod, f, known, st)]
                if failures or not todo or st["capped"]:
                    break
                continue
            rd, _, _ = select.select(list(running), [], [], 1.0)
            done = []
            for fd in rd:
                c = running[fd]
                if c.read():
                    done.append(c)
                    del running[fd]
            for fd, c in list(running.items()):
                if time.monotonic() - c.last > RUN_TIMEOUT:
                    k = len(c.results)
                    del running[fd]
                    c.kill()
                    c.results = c.results[:k]
                    failures.append((c.tag[0], k, c.plans,
                                     ("hang", "no result within %gs"
                                      % RUN_TIMEOUT)))
            for c in done:
                for j, r in enumerate(c.results):
                    if collect is not None:
                        collect[c.tag[1] + j] = r["digest"]
                    st["runs"] += 1
                    st["faults"].update(r["faults"])
                    st["probes"].update(r["probes"])
                    st["states"].update(r["states"])
                    st["now"] += r["now"]
                    st["checks"] += r["checks"]
                    st["events"] += r["events"]
                    st["plans"].add(r["plan_hash"])
                    st["digests"].add(r["digest"])
                    if r["known"]:
                        st["known"][r["known"]] += 1
                    if r["nontrivial"]:
                        st["nontrivial"].add(r["plan_hash"])
                        if len(st["samples"]) < 3:
                            st["samples"].append(c.plans[j])
                v = c.outcome()
                if v:
                    k = len(c.results)
                    if c.results and c.results[-1]["viol"]:
                        k -= 1
                    failures.append((c.tag[0], k, c.plans, v))
            # the first failure counts: no need to wait for later batches
            for fd, c in list(running.items()):
                if failures and c.tag[0] > min(f[0] for f in failures):
                    del running[fd]
                    c.kill()
                    todo.append(c.tag[0])
            todo.sort(reverse=True)
    finally:
        for c in list(running.values()):
            c.kill()
    st["wall"] = time.monotonic() - t0
    failures.sort(key=lambda f: (f[0], f[1]))
    return st, failures[0] if failures else None


# ---------------------------------------------------------------- minimise

def _ddmin(items, test):
    """Greedy chunk removal."""
    n = len(items)
    size = max(1, n // 2)
    while size >= 1 and items:
        i, changed = 0, False
        while i < len(items):
            cand = items[:i] + items[i + size:]
            if test(cand):
                items, changed = cand, True
            else:
                i += size
        if size == 1 and not changed:
            break
        size = size // 2 if size > 1 else (1 if changed else 0)
    return items


class Minimiser(object):
    def __init__(self, mod, kind, known, wall):
        self.mod, self.kind, self.known = mod, kind, known
        self.t1 = time.monotonic() + wall
        self.n = 0

    def fails(self, plans):
        if time.monotonic() > self.t1:
            return False
        self.n += 1
        try:
            v, _ = exec_fresh(self.mod, plans, known=self.known,
                              timeout=min(RUN_TIMEOUT, 30))
        except HarnessError:
            return False
        return bool(v) and v[0] == self.kind

    def run(self, plans):
        if len(plans) > 1:
            last = plans[-1:]
            pre = _ddmin(plans[:-1], lambda p: self.fails(p + last))
            plans = pre + last
        for i in range(len(plans)):
            plans = self.one(plans, i)
        return plans

    def one(self, plans, i):
        def test(p):
            return self.fails(plans[:i] + [p] + plans[i + 1:])
        plan = plans[i]
        progress = True
        rounds = 0
        while progress and rounds < 4 and time.monotonic() < self.t1:
            progress, rounds = False, rounds + 1
            for key in getattr(self.mod, "SHRINK",
                               ("ops", "faults", "switches")):
                lst = plan.get(key)
                if not isinstance(lst, list) or not lst:
                    continue

                def t(c, key=key):
                    return test(dict(plan, **{key: c}))
                new = _ddmin(lst, t)
                if len(new) < len(lst):
                    plan = dict(plan, **{key: new})
                    progress = True
            if hasattr(self.mod, "shrink"):
                again = True
                while again and time.monotonic() < self.t1:
                    again = False
                    for cand in self.mod.shrink(copy.deepcopy(plan)):
                        if cand != plan and test(cand):
                            plan, again, progress = cand, True, True
                            break
        return plans[:i] + [plan] + plans[i + 1:]


# ---------------------------------------------------------------- verdicts

def report(mod, seed, fail, known, stream=sys.stdout):
    _, k, plans, (kind, msg) = fail
    tail = plans[:k + 1]
    if kind == "hang":
        v, _ = exec_fresh(mod, tail[-1:], known=known,
                          budget=getattr(mod, "LINE_BUDGET", 4000000),
                          timeout=240)
        if not v or v[0] != "no-progress":
            raise HarnessError("run did not finish: %s -> %s" % (
                tail[-1].get("_id"), v))
        base, kind, msg = tail[-1:], v[0], v[1]
        final, nmin = base, 0
    else:
        base = None
        for cand in (tail[-1:], tail):
            v, _ = exec_fresh(mod, cand, known=known)
            if v and v[0] == kind:
                base = cand
                break
        if base is None:
            # differs from run to run
            base = final = tail
            nmin = 0
            for _ in range(10):
                v, res = exec_fresh(mod, final, known=known)
                if v:
                    kind = v[0]
                    break
        else:
            mini = Minimiser(mod, kind, known,
                             float(os.environ.get("DST_MIN_WALL", "60")))
            final = mini.run(base)
            nmin = mini.n
    budget = getattr(mod, "LINE_BUDGET", 4000000) \
        if kind == "no-progress" else None
    v, res = exec_fresh(mod, final, keep=True, known=known, budget=budget,
                        timeout=240)
    if not v or v[0] != kind:
        final = base
        v, res = exec_fresh(mod, final, keep=True, known=known,
                            budget=budget, timeout=240)
    if not v:
        v = kind, msg + " (not in every execution)"
    rep = {"property": mod.ID, "seed": seed, "run": tail[-1].get("_id"),
           "kind": v[0], "message": v[1], "plans": final,
           "budget": budget,
           "digest": res[-1]["digest"] if res else None,
           "log": (res[-1]["log"] or [])[-400:] if res else [],
           "minimiser_executions": nmin,
           "original_plan": tail[-1]}
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (
        mod.ID, hashlib.sha1(json.dumps(final, sort_keys=True).encode()
                             ).hexdigest()[:12]))
    with open(path, "w") as f:
        json.dump(rep, f, indent=1)
    # replay in a fresh interpreter, under another hash seed
    env = dict(os.environ, PYTHONHASHSEED="77")
    r = subprocess.run([sys.executable, "-m", "dst.run", "replay", path],
                       cwd=VERIF, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=600)
    ok = r.returncode == 1
    print("violation: %s: %s" % (v[0], v[1]), file=stream)
    print("minimised to %d plan(s) with %d executions; fresh-process replay "
          "%s" % (len(final), nmin, "reproduces it exactly" if ok else
                  "DIFFERS:\n" + r.stdout.decode("utf8", "replace")[-1500:]),
          file=stream)
    print("VIOLATION property=%s replay=%s" % (mod.ID, path), file=stream)
    return path


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    mod = load(rep["property"])
    v, res = exec_fresh(mod, rep["plans"], keep=True, known=known_list(mod.ID),
                        budget=rep.get("budget"), timeout=240)
    if not v:
        print("no violation: the replay passes on this tree")
        return 0
    dig = res[-1]["digest"] if res else None
    print("%s: %s" % v)
    for s in (res[-1]["log"] or [])[-40:] if res else []:
        print("   ", s[:300])
    same = v[0] == rep["kind"] and dig == rep["digest"]
    print("identical to the recorded run: %s" % same)
    print("VIOLATION property=%s replay=%s" % (mod.ID, path))
    return 1 if same or v[0] != rep["kind"] else 4


def evidence(mod, tier, seed, st, nviol, wall, workers):
    hours = max(st["wall"], 1e-6)/3600.
    probes = dict(st["probes"])
    for p in getattr(mod, "PROBES", ()):
        probes.setdefault(p, 0)
    kinds = dict(st["faults"])
    for p in getattr(mod, "FAULTS", ()):
        kinds.setdefault(p, 0)
    cov = {
        "evaluations": st["runs"],
        "distinct_nontrivial": len(st["nontrivial"]),
        "rule": mod.RULE,
        "samples": [json.dumps(s)[:1200] for s in st["samples"]],
        "simulated_runs_per_hour": int(st["runs"]/hours),
        "seeds_per_hour": int(len(st["plans"])/hours),
        "simulated_time": st["now"],
        "simulated_time_unit": getattr(
            mod, "TIME_UNIT", "none: this property has no clock"),
        "faults_injected": kinds,
        "rare_conditions_hit": probes,
        "distinct_executions_by_event_log": len(st["digests"]),
        "distinct_states": len(st["states"]),
        "state_measure": getattr(mod, "STATE_MEASURE", ""),
        "oracle_checks": st["checks"],
        "logged_events": st["events"],
        "real_components": mod.REAL,
        "stubbed_components": mod.STUB,
        "workers": workers,
        "stopped_by_wall_clock": st["capped"],
        "known_findings_hit": dict(st["known"]),
        "violations_that_did_not_repeat": st["unrepeated"],
    }
    ev = {"property": mod.ID, "tier": tier, "seed": seed,
          "level": "exploration", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(wall, 2), "violations": nviol}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, mod.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def check(prop):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    print("property %s seed %d tier %s" % (prop, seed, tier), flush=True)
    mod = load(prop)
    workers = int(os.environ.get("DST_WORKERS", min(8, os.cpu_count() or 1)))
    n = mod.RUNS[tier if tier in mod.RUNS else "quick"]
    n = int(os.environ.get("DST_RUNS", n))
    wall = float(os.environ.get(
        "DST_WALL", 420 if tier == "quick" else 780))
    known = known_list(prop)
    st, fail = search(mod, seed, n, workers, wall, known)
    evidence(mod, tier, seed, st, 1 if fail else 0,
             time.monotonic() - t0, workers)
    for s in st["unrepeated"]:
        print("not repeated in a fresh process: %s" % s)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    print("%d runs, %d distinct non-trivial, %d states, %d checks, %.1fs, "
          "faults %s" % (st["runs"], len(st["nontrivial"]),
                         len(st["states"]), st["checks"], st["wall"],
                         dict(st["faults"])), flush=True)
    if fail:
        report(mod, seed, fail, known)
        return 1
    if st["runs"] == 0:
        raise HarnessError("nothing was run")
    return 0


def selftest(prop, n=200):
    """Same seeds, other worker counts, other hash seeds: same event logs."""
    runs = []
    for workers, hs in ((8, "0"), (3, "123"), (1, "9"), (5, "random")):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        r = subprocess.run([sys.executable, "-m", "dst.run", "digests", prop,
                            str(n if workers > 1 else max(1, n // 4)),
                            str(workers)],
                           cwd=VERIF, env=env, stdout=subprocess.PIPE)
        if r.returncode:
            print("digests failed", r.returncode, r.stdout[-2000:])
            return 2
        runs.append(json.loads(r.stdout.decode().splitlines()[-1]))
    bad = 0
    for other in runs[1:]:
        for k in other:
            if other[k] != runs[0][k]:
                bad += 1
                print("differs: run", k)
    print("%s: %d runs x %d configurations, %d differences" % (
        prop, len(runs[0]), len(runs), bad))
    return 1 if bad else 0


def digests(prop, n, workers):
    mod = load(prop)
    col = {}
    st, fail = search(mod, int(os.environ.get("VERIF_SEED", "1")), n, workers,
                      1e9, known_list(prop), collect=col)
    if fail:
        print(fail[3])
        return 1
    print(json.dumps({str(k): v for k, v in sorted(col.items())}))
    return 0
