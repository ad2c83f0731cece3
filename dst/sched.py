"""Seeded thread scheduler: real threads, of which only the one holding the
token runs.  Every executed line (and every part of an expression, see
points.py) of the code under test is a point where the schedule can hand the
token on; at lines it can raise an injected exception in the running thread."""
import os
import sys
import threading
import time

from . import core, points
from .core import HarnessError, make_exc

STALL = 10.     # a holder that waits for a lock of a suspended thread


class Scheduler(object):
    """schedule: [[steps, pick], ...] run the current thread for `steps`
    points, then hand over to the `pick`-th of the other unfinished threads.
    inject: {thread: (line number counted in that thread, exception name)}
    """

    def __init__(self, schedule, grain="line", inject=None):
        self.schedule = list(schedule)
        self.grain = grain
        self.inject = dict(inject or {})
        self.pos = 0
        self.left = self.schedule[0][0] if self.schedule else -1
        self.current = None
        self.switches = []      # (from, where, to)
        self.fired = {}
        self.points = 0
        self.stalls = 0

    # ------------------------------------------------------------ tracing

    def _glob(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(core.PKG):
            return None
        return self._local

    def _local(self, frame, event, arg):
        if event == "line":
            me = self.ident[threading.get_ident()]
            if self.current != me:
                self._wait(me)      # only after a stall
            self.points += 1
            self.lines[me] += 1
            act = self.inject.get(me)
            if act and me not in self.fired and self.lines[me] == act[0]:
                self.fired[me] = (os.path.basename(
                    frame.f_code.co_filename), frame.f_code.co_name)
                raise make_exc(act[1], "async")
            if self.grain != "store":
                self._step(me, frame)
        return self._local

    def store(self, frame):
        if self.grain == "store":
            self.point(frame, "store")

    def point(self, frame, grain="part"):
        me = self.ident.get(threading.get_ident())
        if me is None or self.grain != grain:
            return
        if self.current != me:
            self._wait(me)
        self.points += 1
        self._step(me, frame)

    def _step(self, me, frame):
        self.left -= 1
        if self.left == 0:
            self._switch(me, "%s:%d" % (os.path.basename(
                frame.f_code.co_filename), frame.f_lineno))

    # ----------------------------------------------------------- switching

    def _others(self, me):
        n = len(self.gates)
        return [(me+i) % n for i in range(1, n)
                if (me+i) % n not in self.finished]

    def _next(self):
        self.pos += 1
        self.left = (self.schedule[self.pos][0]
                     if self.pos < len(self.schedule) else -1)

    def _switch(self, me, where):
        pick = self.schedule[self.pos][1]
        self._next()
        o = self._others(me)
        if not o:
            return
        to = o[pick % len(o)]
        self.switches.append((me, where, to))
        self.current = to
        self.gates[to].release()
        self._wait(me)

    def _wait(self, me):
        while True:
            self.gates[me].acquire()
            if self.current == me:
                return

    def wait(self):
        """the running thread cannot go on before another one has"""
        me = self.ident[threading.get_ident()]
        o = self._others(me)
        if o:
            self.points += 1
            self.current = o[0]
            self.gates[o[0]].release()
            self._wait(me)

    def _body(self, me, fn):
        self.ident[threading.get_ident()] = me
        self._wait(me)
        try:
            sys.settrace(self._glob)
            self.results[me] = ("ok", fn())
        except BaseException as e:
            self.results[me] = ("raise", e)
        with self.lock:
            self.finished.add(me)
            if self.current == me or self.current in self.finished:
                o = self._others(me)
                self.current = o[0] if o else None
                if o:
                    self.gates[o[0]].release()
                else:
                    self.done.set()
        # changing the tracing of one thread touches the code of all others
        self.done.wait()
        sys.settrace(None)

    def retrace(self):
        """go on after an exception was raised in the trace function"""
        if sys.gettrace() is None:
            sys.settrace(self._glob)

    def run(self, fns):
        n = len(fns)
        self.gates = [threading.Semaphore(0) for _ in fns]
        self.ident, self.finished = {}, set()
        self.lines = [0]*n
        self.results = [None]*n
        self.lock = threading.Lock()
        self.done = threading.Event()
        points.active = self
        try:
            self._run(fns)
        finally:
            points.active = None
        return self.results

    def _run(self, fns):
        ts = [threading.Thread(target=self._body, args=(i, f), daemon=True)
              for i, f in enumerate(fns)]
        for t in ts:
            t.start()
        self.current = 0
        self.gates[0].release()
        seen, last = -1, time.monotonic()
        while not self.done.wait(.5):
            if self.points != seen:
                seen, last = self.points, time.monotonic()
            elif time.monotonic() - last > STALL:
                # the holder may wait for something a suspended thread has
                self.stalls += 1
                if self.stalls > 20:
                    raise HarnessError("threads do not finish")
                o = self._others(self.current)
                last = time.monotonic()
                if o:
                    self.current = o[self.stalls % len(o)]
                    self.gates[self.current].release()
        for t in ts:
            t.join()
