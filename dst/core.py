"""Simulation core: one plan (JSON) -> one exactly repeatable execution."""
import hashlib
import importlib
import json
import os
import pickle
import resource
import socket
import sys
import traceback
from collections import Counter


class Violation(Exception):
    """The property under check is broken."""

    def __init__(self, kind, msg):
        super().__init__("%s: %s" % (kind, msg))
        self.kind = kind
        self.msg = msg


class HarnessError(Exception):
    """The check itself is broken; never a verdict on the code."""


class Injected(Exception):
    """An ordinary injected failure."""


class InjectedBase(BaseException):
    """An injected failure that is not an `Exception` (like an interrupt)."""


EXC = {
    "Injected": Injected,
    "InjectedBase": InjectedBase,
    "ValueError": ValueError,
    "OSError": OSError,
    "MemoryError": MemoryError,
    "RuntimeError": RuntimeError,
    "FloatingPointError": FloatingPointError,
    "ArithmeticError": ArithmeticError,
    "KeyError": KeyError,
    "TypeError": TypeError,
    "KeyboardInterrupt": KeyboardInterrupt,
    "SystemExit": SystemExit,
    "StopIteration": StopIteration,
    "GeneratorExit": GeneratorExit,
    "AttributeError": AttributeError,
}


def make_exc(name, tag="injected"):
    e = EXC[name](tag)
    try:
        e.dst_injected = True
    except Exception:
        pass
    return e


def is_injected(e):
    """Is `e`, or one of its causes, an injected failure?"""
    seen = set()
    while e is not None and id(e) not in seen:
        if getattr(e, "dst_injected", False):
            return True
        seen.add(id(e))
        e = e.__cause__ or e.__context__
    return False


def canon(x):
    """Canonical JSON-able form of a logged value."""
    import numpy as np
    if isinstance(x, np.ndarray):
        return {"a": list(x.shape), "v": [canon(i) for i in x.ravel().tolist()]}
    if isinstance(x, (np.floating,)):
        x = float(x)
    if isinstance(x, (np.integer,)):
        x = int(x)
    if isinstance(x, (np.bool_,)):
        x = bool(x)
    if isinstance(x, float):
        return "%.9g" % (x + 0.0 if x != 0 else 0.0)
    if isinstance(x, complex):
        return "%.9g%+.9gj" % (x.real, x.imag)
    if isinstance(x, dict):
        return {str(k): canon(v) for k, v in sorted(
            x.items(), key=lambda kv: str(kv[0]))}
    if isinstance(x, (list, tuple)):
        return [canon(i) for i in x]
    if x is None or isinstance(x, (bool, int, str)):
        return x
    return repr(type(x).__name__)


class Sim(object):
    """Book-keeping of one simulated run: event log, faults fired, reach."""

    def __init__(self, keep_log=False):
        self.h = hashlib.sha256()
        self.n = 0
        self.keep = keep_log
        self.events = []
        self.faults = Counter()
        self.probes = Counter()
        self.states = set()
        self.now = 0.0
        self.checks = 0
        self.nontrivial = False

    def log(self, *ev):
        s = json.dumps(canon(list(ev)), sort_keys=True)
        self.h.update(s.encode() + b"\n")
        self.n += 1
        if self.keep:
            self.events.append(s)

    def fault(self, kind, n=1):
        """A fault actually fired."""
        self.faults[kind] += n
        self.nontrivial = True
        self.log("fault", kind)

    def probe(self, name, n=1):
        self.probes[name] += n

    def state(self, *obj):
        s = json.dumps(canon(list(obj)), sort_keys=True)
        self.states.add(hashlib.blake2b(s.encode(), digest_size=8).hexdigest())

    def check(self, ok, kind, msg=""):
        self.checks += 1
        if not ok:
            raise Violation(kind, msg() if callable(msg) else msg)

    def close(self, got, want, kind, msg="", rtol=1e-9, atol=1e-12, scale=None):
        """Numerical equality; nan matches nan.  `scale` overrides the
        magnitude that rtol refers to (default: max |want|)."""
        import numpy as np
        self.checks += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            raise Violation(kind, "%s shape %s != %s" % (
                msg, g.shape, w.shape))
        if g.size == 0:
            return
        if scale is None:
            f = np.abs(w[np.isfinite(w)])
            scale = float(f.max()) if f.size else 0.
        tol = atol + rtol*scale
        with np.errstate(all="ignore"):
            bad = ~((np.abs(g - w) <= tol) | (g == w)
                    | (np.isnan(g) & np.isnan(w)))
        if np.any(bad):
            i = tuple(int(k) for k in np.argwhere(bad)[0]) if g.ndim else ()
            raise Violation(kind, "%s got %s want %s at %s (tol %.3g)" % (
                msg, g[i], w[i], i, tol))

    def digest(self):
        return self.h.hexdigest()[:24]


PKG = None      # directory of the package under test


def set_pkg(d):
    global PKG
    PKG = os.path.join(d, "electrode") + os.sep


class Interrupter(object):
    """Raise an exception at the k-th executed line of the code under test
    (asynchronous interrupt: ctrl-C, failed allocation, timeout signal)."""

    def __init__(self, at=None, exc=None):
        self.at = at
        self.exc = exc
        self.n = 0
        self.fired = None

    def _local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.at is not None and self.n == self.at and not self.fired:
                self.fired = (os.path.basename(frame.f_code.co_filename),
                              frame.f_code.co_name)
                raise make_exc(self.exc, "async")
        return self._local

    def _glob(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PKG):
            return self._local
        return None

    def run(self, fn):
        old = sys.gettrace()
        sys.settrace(self._glob)
        try:
            return fn()
        finally:
            sys.settrace(old)


def count_lines(fn):
    """Number of lines of the package `fn` executes (ignoring errors)."""
    it = Interrupter()
    try:
        it.run(fn)
    except BaseException:
        pass
    return it.n


def from_package(e):
    """Does the traceback of `e` pass through the code under test?"""
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        tb = e.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(PKG):
                return True
            tb = tb.tb_next
        e = e.__cause__ or e.__context__
    return False


def raised_in_package(e):
    """Was `e` raised by the code under test itself?"""
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    return tb is not None and tb.tb_frame.f_code.co_filename.startswith(PKG)


def short_tb(e, n=4):
    import traceback
    fr = traceback.extract_tb(e.__traceback__)[-n:]
    return "%s: %s @ %s" % (type(e).__name__, str(e)[:200], " < ".join(
        "%s:%s" % (os.path.basename(f.filename), f.name) for f in fr[::-1]))


class reference(object):
    """Marks reference computations in third party native code: when the
    process dies in one, this says nothing about the package."""
    flag = None

    def __enter__(self):
        if self.flag is not None:
            self.flag[0] = 1

    def __exit__(self, *a):
        if self.flag is not None:
            self.flag[0] = 0


class Skip(Exception):
    """This run cannot be judged (a reference computation died)."""


class Apart(object):
    """Reference computations in a process that never ran anything else:
    a server forked before the first run forks anew for every question, so
    that nothing left behind in the process can colour the answer."""

    def __init__(self):
        self.pid = None

    def start(self):
        if self.pid == os.getpid():
            return
        self.sock, other = socket.socketpair()
        pid = os.fork()
        if pid == 0:
            try:
                os.closerange(3, other.fileno())
                os.closerange(other.fileno() + 1, 1024)
                self.serve(other)
            finally:
                os._exit(0)
        other.close()
        self.pid = os.getpid()

    @staticmethod
    def recv(sock):
        n = b""
        while len(n) < 4:
            c = sock.recv(4 - len(n))
            if not c:
                return None
            n += c
        n = int.from_bytes(n, "big")
        b = b""
        while len(b) < n:
            c = sock.recv(min(1 << 20, n - len(b)))
            if not c:
                return None
            b += c
        return pickle.loads(b)

    @staticmethod
    def send(sock, obj):
        b = pickle.dumps(obj, 4)
        sock.sendall(len(b).to_bytes(4, "big") + b)

    def serve(self, sock):
        while True:
            q = self.recv(sock)
            if q is None:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    resource.setrlimit(resource.RLIMIT_CPU, (150, 150))
                    mod, fn, args = q
                    try:
                        a = ("ok", getattr(importlib.import_module(mod), fn)(
                            *args))
                        pickle.dumps(a, 4)
                    except BaseException as e:
                        a = ("error", "".join(traceback.format_exception(
                            type(e), e, e.__traceback__))[-2000:])
                    self.send(sock, a)
                finally:
                    os._exit(0)
            st = os.waitpid(pid, 0)[1]
            if st:
                self.send(sock, ("died", st))

    def ask(self, fn, *args):
        self.start()
        self.send(self.sock, (fn.__module__, fn.__name__, args))
        a = self.recv(self.sock)
        if a is None or a[0] == "error":
            raise HarnessError("reference: %s" % (a,))
        if a[0] == "died":
            raise Skip()
        return a[1]


apart = Apart()
