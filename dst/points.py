"""Scheduling points inside statements: the package's modules are compiled
with a call around every attribute, subscript, call and operator value, so that
the scheduler can also hand over between two parts of one statement (between
the load and the store of `self.x += f()`, say).  Positions, tracebacks and
results are those of the original source."""
import ast
import builtins
import importlib.machinery
import os
import sys
import threading
import time

from . import core

NAME = "__dst_point__"
STORE = "__dst_store__"
SKIP = {"expressions.py", "colors.py"}
active = None


def point(v):
    if active is not None:
        active.point(sys._getframe(1))
    return v


def store():
    if active is not None:
        active.store(sys._getframe(1))


class Wrap(ast.NodeTransformer):
    def wrap(self, node):
        self.generic_visit(node)
        if isinstance(getattr(node, "ctx", None), (ast.Store, ast.Del)):
            return node
        return ast.copy_location(ast.Call(
            func=ast.copy_location(ast.Name(NAME, ast.Load()), node),
            args=[node], keywords=[]), node)

    visit_Attribute = visit_Subscript = visit_Call = visit_BinOp = wrap

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        node.value = ast.copy_location(ast.Call(
            func=ast.copy_location(ast.Name(NAME, ast.Load()), node),
            args=[node.value], keywords=[]), node)
        return self.stored(node)

    def stored(self, node):
        """what others may see is written: a point to hand over after it"""
        n = ast.Expr(ast.Call(func=ast.Name(STORE, ast.Load()), args=[],
                              keywords=[]))
        for i in ast.walk(n):
            i.lineno = i.end_lineno = node.end_lineno
            i.col_offset = i.end_col_offset = 0
        return [node, n]

    def visit_Assign(self, node):
        self.generic_visit(node)
        for t in node.targets:
            for i in ast.walk(t):
                if isinstance(getattr(i, "ctx", None), ast.Store) and (
                        not isinstance(i, ast.Name)
                        or i.id in self.shared):
                    return self.stored(node)
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        return self.stored(node)

    def visit_Expr(self, node):
        call = isinstance(node.value, ast.Call)
        self.generic_visit(node)
        return self.stored(node) if call else node

    shared = frozenset()

    def visit_FunctionDef(self, node):
        # not the decorators, defaults and annotations
        old = self.shared
        self.shared = frozenset(
            n for i in ast.walk(node)
            if isinstance(i, (ast.Global, ast.Nonlocal)) for n in i.names)
        body = []
        for i in node.body:
            r = self.visit(i)
            body.extend(r if isinstance(r, list) else [r])
        node.body = body
        self.shared = old
        return node

    def visit_JoinedStr(self, node):
        return node


class Functions(ast.NodeTransformer):
    """only what runs in calls, not what runs on import"""

    def visit_FunctionDef(self, node):
        return Wrap().visit(node)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def source_to_code(self, data, path, *, _optimization=-1):
        if os.path.basename(path) not in SKIP:
            data = ast.fix_missing_locations(Functions().visit(
                ast.parse(data, path)))
        return compile(data, path, "exec", dont_inherit=True,
                       optimize=_optimization)


class Finder(object):
    def find_spec(self, name, path=None, target=None):
        if name != "electrode" and not name.startswith("electrode."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is None or not isinstance(
                spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        if not spec.origin.startswith(core.PKG):
            return spec
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


class SimLock(object):
    """a lock made by the package: waiting for it hands over to the others"""

    def __init__(self, again):
        self.again, self.owner, self.n = again, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        tries = 0
        while self.owner is not None and not (
                self.again and self.owner == me):
            if not blocking:
                return False
            if active is None or me not in active.ident:
                time.sleep(1e-3)
            else:
                tries += 1
                if tries > 2000:
                    raise core.Violation("deadlock", "threads wait for locks "
                                         "that nobody releases")
                active.wait()
        self.owner, self.n = me, self.n+1
        return True

    def release(self):
        if self.n <= 0:
            raise RuntimeError("release unlocked lock")
        self.n -= 1
        if not self.n:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


def locks():
    """locks that the package makes are simulated"""
    def factory(real, again):
        def make(*a, **k):
            if sys._getframe(1).f_code.co_filename.startswith(core.PKG):
                return SimLock(again)
            return real(*a, **k)
        return make
    threading.Lock = factory(threading.Lock, False)
    threading.RLock = factory(threading.RLock, True)


def install():
    if "electrode" in sys.modules:
        raise core.HarnessError("the package is already loaded")
    setattr(builtins, NAME, point)
    setattr(builtins, STORE, store)
    sys.meta_path.insert(0, Finder())
    locks()
