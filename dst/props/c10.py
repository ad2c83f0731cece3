"""GDS export and import round trip, or fail."""
import copy
import datetime
import io
import os
import random
import tempfile
import warnings

import numpy as np

from .. import core
from ..core import Interrupter, count_lines, is_injected, make_exc
from . import c18

ID = "C10"
RUNS = {"quick": 6000, "thorough": 40000}
BATCH = 10
RULE = ("A run draws electrodes as sets of grid cells (holes, islands, corner "
        "contacts, several pieces), exports them to a GDS library under a "
        "simulated clock, saves it to a simulated disk and imports it, in a "
        "random history of exports, saves and loads; writes and reads fail "
        "at any call, reads come up short, the file is torn or truncated at "
        "any byte, every step is interrupted at any line, and steps are "
        "repeated after the fault. Non-trivial: a fault fired.")
REAL = ["Polygons.to_gds, from_gds, from_data, assign_to_pad",
        "the gdsii library's encoder and decoder", "shapely/GEOS"]
STUB = ["file object over a simulated disk", "clock of the gdsii library"]
STATE_MEASURE = "distinct (mode, step, fault, outcome, electrodes, clipping)"
TIME_UNIT = "years of simulated clock between the time stamps of a run"
FAULTS = ["write-raises", "torn-write", "read-raises", "short-read",
          "truncated", "interrupt", "clock-jump"]
PROBES = ["plain", "default", "gaps-only", "holes", "islands", "multi-piece",
          "unnamed-neighbour", "clipped-on-export", "clipped-on-import",
          "rounded", "several-structures", "unknown-structure", "path-name",
          "repeated-after-fault", "torn-file-rejected", "empty",
          "year-before-epoch", "far-future", "short-read-survived",
          "non-ascii", "second-round-trip", "layers-selected", "foreign-elements", "bridged", "cut-in-pieces",
          "piece-named", "keyhole", "rotated"]
ASSUMPTIONS = ["layouts with gaps or clipping are drawn along the axes: the "
               "geometry kernel answers wrongly at times when slanted edges "
               "coincide but for rounding",
               "the disk does not lose or alter bytes in the middle of a "
               "file without an error: the format has no checksum",
               "features are at least 10 database units wide"]
SHRINK = ("ops", "els")
EXC = ["Injected", "OSError", "MemoryError", "KeyboardInterrupt",
       "InjectedBase", "RuntimeError"]
ASYNC = ["KeyboardInterrupt", "MemoryError", "InjectedBase"]
ONAMES = ["other", "trap_electrodes2", "trap", "t"]
NAMES = [["a", "b", "c", "d", "e"], ["a", "b", "a", "c", "b"],
         ["", "a", "", "b", "a"], ["rf", "dc1", "dc2", "x", "dc10"],
         ["", "", "", "", ""], ["a b", "-", "1", "A", "0"]]


def draw(rng, idx):
    names = rng.choice(NAMES)
    if rng.random() < .03:
        names = ["a", "\u00b5", "b", "c", "d"]
    els = [[names[i], c18.gen_cells(rng)] for i in range(
        rng.choice([0, 1, 2, 3, 3, 4, 5]))]
    mode = rng.choice(["plain", "plain", "default", "default", "gaps"])
    s = rng.choice([1., 1., .5, 3., .37, 1/3.])
    scale, phys = rng.choice([
        (1., 1e-3), (40e-6, 1e-9), (1e-6, 1e-9), (50e-6, 5e-9), (1e-3, 1e-6),
        (100e-6, 1e-9), (1., 1e-6), (123e-6, 1e-9)])
    routes = None
    if rng.random() < .25:
        mode, routes = "routes", gen_routes(rng)
        els = []
    ops = [{"op": "export"}, {"op": "save"}, {"op": "load"}]
    for _ in range(rng.choice([0, 0, 1, 2, 3, 5])):
        ops.append({"op": rng.choice(["export", "save", "load", "load",
                                      "again"])})
    for o in ops:
        o["fault"] = None
        f = rng.random()
        k = o["op"]
        if f < .15:
            o["fault"] = ["int", round(rng.random(), 5), rng.choice(ASYNC)]
        elif k == "save" and f < .4:
            o["fault"] = ["write", round(rng.random(), 5), rng.choice(EXC)]
        elif k == "save" and f < .55:
            o["fault"] = ["torn", round(rng.random(), 5)]
        elif k == "load" and f < .3:
            o["fault"] = ["read", round(rng.random(), 5), rng.choice(EXC)]
        elif k == "load" and f < .4:
            o["fault"] = ["short", round(rng.random(), 5), rng.randint(0, 9)]
        elif k == "load" and f < .6:
            o["fault"] = ["trunc", round(rng.random(), 5)]
        if k == "load":
            o["path"] = rng.random() < .1
            o["wrong"] = rng.random() < .06
    return {"els": els, "ops": ops, "multi": rng.random() < .5,
            "flip": rng.random() < .3, "s": s, "oname": rng.choice(ONAMES),
            "rot": 0. if mode != "plain" else rng.choice(
                [0., 0., 0., .3, -.77, 2.]),
            "at": [rng.choice([0, -4, -4, 2]), rng.choice([0, -4, -4, 1])],
            "mode": mode, "routes": routes, "scale": scale, "phys": phys,
            "edge_out": rng.choice([None, None, None, 0, 4, 9, 40]),
            "edge_in": rng.choice([None, None, 4, 9, 30, 60]),
            "width": rng.choice([0., 0., .1]),
            "layers": rng.choice([None, None, [[1, 0], [2, 0], [3, 1]],
                                  [[13, 6], [13, 7], [5, 0]],
                                  [[0, 0], [0, 1], [0, 0]]]),
            "struct": rng.choice([None, "trap", "X1"]),
            "foreign": rng.choice([0, 0, rng.randint(1, 999)]),
            "other": rng.choice([None, None, "before", "after"]),
            "clock": [[rng.choice([1900, 1901, 1969, 1970, 1999, 2000, 2024,
                                   2026, 2038, 2100, 9999]),
                       rng.randint(1, 12), rng.randint(1, 28),
                       rng.randint(0, 23), rng.randint(0, 59),
                       rng.randint(0, 59)] for _ in range(rng.randint(1, 3))]}


M = 6


def gen_routes(rng):
    """layers of a layout drawn elsewhere: paths along the lines of a grid,
    rectangles and labels"""
    def path(kind):
        r = rng.random()
        if kind == "gaps" and r < .3:
            # across the field
            k = rng.randint(1, M-1)
            return rng.choice([[[0, k], [M, k]], [[k, 0], [k, M]],
                               [[k, -1], [k, M+1]]])
        if r < .6:
            x0, y0, x1, y1 = c18.rect(rng, M, M)
            return [[x0, y0], [x1, y0], [x1, y1], [x0, y1], [x0, y0]]
        p = [[rng.randint(0, M), rng.randint(0, M)]]
        for _ in range(rng.randint(1, 4)):
            x, y = p[-1]
            if rng.random() < .5:
                x = rng.randint(0, M)
            else:
                y = rng.randint(0, M)
            if [x, y] != p[-1]:
                p.append([x, y])
        return p
    out = {}
    for k, n in (("gaps", 4), ("routes", 3), ("bridges", 2)):
        out[k] = [i for i in (path(k) for _ in range(rng.randint(0, n)))
                  if len(i) > 1 or rng.random() < .5]
    out["polys"] = [[rng.choice(["", "p", "q"]), c18.rect(rng, M, M)]
                    for _ in range(rng.choice([0, 0, 1, 2]))]
    out["texts"] = [["n%d" % i, [rng.randint(-1, M), rng.randint(-1, M)]]
                    for i in range(rng.randint(0, 6))]
    out["order"] = rng.randrange(1000)
    out["junk"] = rng.random() < .4
    return out


def gen(rng, idx):
    plan = draw(rng, idx)
    if plan["rot"]:
        plan["edge_out"], plan["edge_in"] = None, 100
    return plan


def shrink_routes(plan):
    r = plan.get("routes")
    for k in ("gaps", "routes", "bridges", "polys", "texts"):
        for i in range(len(r[k]) if r else 0):
            c = copy.deepcopy(plan)
            del c["routes"][k][i]
            yield c
    if r and r["junk"]:
        c = copy.deepcopy(plan)
        c["routes"]["junk"] = False
        yield c


def shrink(plan):
    for c in shrink_routes(plan):
        yield c
    for k, o in enumerate(plan["ops"]):
        if o["fault"]:
            c = copy.deepcopy(plan)
            c["ops"][k]["fault"] = None
            yield c
    for k, e in enumerate(plan["els"]):
        for i in range(len(e[1])):
            if len(e[1]) > 1:
                c = copy.deepcopy(plan)
                del c["els"][k][1][i]
                yield c
    for key, v in (("flip", False), ("rot", 0.), ("s", 1.), ("at", [0, 0]),
                   ("multi", False), ("edge_out", None), ("edge_in", None),
                   ("foreign", 0), ("layers", None), ("struct", None), ("other", None),
                   ("width", 0.), ("clock", [[2000, 1, 1, 0, 0, 0]])):
        if plan[key] != v:
            c = copy.deepcopy(plan)
            c[key] = v
            yield c


# ----------------------------------------------------------- simulated parts

class Clock(object):
    """Stands for the datetime class of the gdsii library. Each reading takes
    the next time of the plan"""

    def __init__(self, times, sim):
        self.times, self.k, self.sim = times, 0, sim

    def read(self, tz=None):
        t = self.times[self.k % len(self.times)]
        if self.k and t != self.times[(self.k-1) % len(self.times)]:
            self.sim.fault("clock-jump")
            self.sim.now = getattr(self.sim, "now", 0) + abs(
                t[0] - self.times[(self.k-1) % len(self.times)][0])
        self.k += 1
        if t[0] < 1970:
            self.sim.probe("year-before-epoch")
        if t[0] > 2050:
            self.sim.probe("far-future")
        return datetime.datetime(*t, tzinfo=tz)

    def now(self, tz=None):
        return self.read(tz)

    def utcnow(self):
        return self.read()

    def __call__(self, *a, **k):
        return datetime.datetime(*a, **k)

    def __getattr__(self, k):
        return getattr(datetime.datetime, k)


class Crash(BaseException):
    pass


class Disk(object):
    """A file object. Writes reach the disk at once; fails or crashes at the
    n-th byte or call"""

    def __init__(self, data=b"", fault=None, sim=None):
        self.f = io.BytesIO(data)
        self.fault, self.sim = fault, sim
        self.calls, self.fired = 0, 0

    def write(self, b):
        self.calls += 1
        f = self.fault
        if f and f[0] == "write" and self.calls == f[1]:
            self.fired += 1
            self.sim.fault("write-raises")
            raise make_exc(f[2], "disk")
        if f and f[0] == "torn" and self.f.tell() + len(b) > f[1]:
            self.f.write(b[:f[1] - self.f.tell()])
            self.fired += 1
            self.sim.fault("torn-write")
            raise Crash()
        return self.f.write(b)

    def read(self, n=-1):
        self.calls += 1
        f = self.fault
        if f and f[0] == "read" and self.calls == f[1]:
            self.fired += 1
            self.sim.fault("read-raises")
            raise make_exc(f[2], "disk")
        if f and f[0] == "short" and self.calls == f[1] and n > 0:
            self.fired += 1
            self.sim.fault("short-read")
            n = max(0, min(n-1, f[2]))
            return self.f.read(n)
        return self.f.read(n)

    def __getattr__(self, k):
        return getattr(self.f, k)


def quiet(fn):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return fn()


def attempt(fn, it=None):
    try:
        return quiet((lambda: it.run(fn)) if it else fn), None
    except BaseException as e:
        return None, e


# ----------------------------------------------------------- run

def prepare(d):
    global SCRATCH
    SCRATCH = d


SCRATCH = None


class Run(object):
    def __init__(self, plan, sim):
        from electrode.polygons import Polygons
        self.plan, self.sim = plan, sim
        self.g = c18.Grid(plan)
        acc = frozenset()
        self.model = []
        for n, c in plan["els"]:
            c = c18.cells(c)
            if plan["mode"] != "plain":
                c, acc = c - acc, acc | c
            if c:
                self.model.append((n, c))
        self.cur = Polygons((n, self.g.geom(c, plan["multi"]))
                            for n, c in self.model)
        # one database unit, in lengths of the electrodes
        self.unit = plan["phys"]/plan["scale"]
        self.lib = self.data = None

    def tol(self, geoms):
        return 2*self.unit*(sum(i.length for i in geoms) + 1e-3) + 1e-9

    def export_args(self):
        p = self.plan
        # defaults are left out
        k = {} if p["scale"] == 1. else {"scale": p["scale"]}
        if p["phys"] != 1e-9:
            k["phys_unit"] = p["phys"]
        if p["edge_out"] is not None:
            k["edge"] = p["edge_out"]*p["s"]
        if p["width"]:
            k["gap_width"] = p["width"]
        if p["struct"]:
            k["name"] = p["struct"]
        if p["layers"]:
            a, b, c = p["layers"]
            k.update(poly_layer=tuple(a), gap_layer=tuple(b),
                     text_layer=tuple(c))
        if p["mode"] == "gaps":
            k["poly_layer"] = None
        return k

    def xy(self, x, y):
        u = self.plan["s"]/self.unit
        return int(round((x - M/2.)*u)), int(round((y - M/2.)*u))

    def draw(self):
        """a library drawn elsewhere"""
        from gdsii import elements, library, structure
        p = self.plan["routes"]
        lib = library.Library(version=5, name=b"x",
                              physical_unit=self.plan["phys"],
                              logical_unit=1e-3)
        s = structure.Structure(name=b"trap_electrodes")
        el = []
        for layer, k in ((1, "gaps"), (2, "routes"), (3, "bridges")):
            for i in p[k]:
                el.append(elements.Path(layer=layer, data_type=0, xy=[
                    self.xy(*j) for j in i]))
        if p["junk"]:
            el.append(elements.Path(layer=9, data_type=0, xy=[
                self.xy(0, 1), self.xy(M, 1)]))
            el.append(elements.Boundary(layer=9, data_type=1, xy=[
                self.xy(0, 1), self.xy(M, 1), self.xy(M, 3),
                self.xy(0, 1)]))
            el.append(elements.Node(layer=2, node_type=0, xy=[
                self.xy(0, 0)]))
            for l in (1, 2, 3):
                el.append(elements.Path(layer=l, data_type=1, xy=[
                    self.xy(0, 2), self.xy(M, 3)]))
            el.append(elements.Boundary(layer=4, data_type=1, xy=[
                self.xy(0, 1), self.xy(M, 1), self.xy(M, 3),
                self.xy(0, 1)]))
            el.append(elements.Text(layer=6, text_type=0, xy=[
                self.xy(1.5, 1.5)], string=b"junk"))
        random.Random(p["order"]).shuffle(el)
        half = len(el)//2
        for n, (x0, y0, x1, y1) in p["polys"][::-1]:
            xy = [(x0, y0), (x0, y1), (x1, y1), (x1, y0), (x0, y0)]
            if holed(p, (x0, y0, x1, y1)):
                # a path to the hole and back, as usual in such files
                xy += [(x0+1, y0), (x0+1, y0+1), (x1-1, y0+1),
                       (x1-1, y1-1), (x0+1, y1-1), (x0+1, y0), (x0, y0)]
                self.sim.probe("keyhole")
            b = elements.Boundary(layer=4, data_type=0, xy=[
                self.xy(*i) for i in xy])
            if n:
                b.properties = [(sum(ord(i) for i in "electrode"),
                                 n.encode())]
            el.insert(half, b)
        for n, (x, y) in p["texts"]:
            el.append(elements.Text(layer=5, text_type=0, xy=[
                self.xy(x+.5, y+.5)], string=n.encode()))
        s.extend(el)
        lib.append(s)
        return lib

    def foreign(self):
        """elements on layers not to be imported"""
        from gdsii import elements
        p = self.plan
        k = self.export_args()
        s, = [i for i in self.lib if i.name.decode() == k.get(
            "name", "trap_electrodes")]
        a, b, c = p["layers"] or [[0, 0], [1, 0], [0, 0]]
        u = max(int(p["s"]/self.unit), 1)
        sq = [(-u, 0), (u, 0), (u, 2*u), (-u, 2*u), (-u, 0)]
        rng = random.Random(p["foreign"])
        el = []
        for d, t in ((0, 3), (2, 0), (-1, 1), (0, -1)):
            def at(i):
                return max(i[0]+d, 0), max(i[1]+t, 0)
            if p["layers"] and at(a) not in ((0, 7), tuple(a)):
                l = at(a)
                e = elements.Boundary(layer=l[0], data_type=l[1], xy=sq)
                e.properties = [(sum(ord(i) for i in "electrode"),
                                 b"foreign")]
                el.append(e)
            if p["mode"] == "plain" or p["layers"] and at(b) not in (
                    (0, 7), tuple(b)):
                l = at(b)
                el.append(elements.Path(layer=l[0], data_type=l[1],
                                        xy=sq[1:4]))
            if p["mode"] == "plain" or p["layers"] and at(c)[0] not in (
                    77, c[0]):
                l = at(c)
                el.append(elements.Text(
                    layer=l[0], text_type=l[1], xy=[(0, u)],
                    string=b"foreign"))
        for e in el:
            if rng.random() < .6:
                s.insert(rng.randint(0, len(s)), e)
                self.sim.probe("foreign-elements")

    def oname(self):
        n = self.plan["oname"]
        return n if n != self.plan["struct"] else "other"

    def export(self, cur=None):
        if self.plan["routes"]:
            return self.draw()
        from gdsii import elements, structure
        lib = (self.cur if cur is None else cur).to_gds(**self.export_args())
        if self.plan["other"]:
            s = structure.Structure(name=self.oname().encode())
            s.append(elements.Boundary(layer=0, data_type=0, xy=[
                (0, 0), (10000, 0), (10000, 10000), (0, 10000), (0, 0)]))
            lib.insert(0 if self.plan["other"] == "before" else 1, s)
        return lib

    def edge(self):
        e = self.plan["edge_in"]
        return 40. if e is None else e*self.plan["s"]

    def load(self, disk, wrong=False):
        from electrode.polygons import Polygons
        p = self.plan
        if p["routes"]:
            k = {"poly_layers": [(4, 0)], "gap_layers": [(1, 0)],
                 "route_layers": [(2, 0)], "bridge_layers": [(3, 0)],
                 "name_layers": [5], "edge": M*p["s"], "scale": p["scale"]}
            if wrong:
                k["name"] = "nosuch"
            return Polygons.from_gds(disk, **k)
        k = {} if p["scale"] == 1. else {"scale": p["scale"]}
        if p["edge_in"] is not None:
            k["edge"] = self.edge()
        if p["struct"]:
            k["name"] = p["struct"]
        elif p["other"] == "before":
            k["name"] = "trap_electrodes"
        if wrong:
            k["name"] = "nosuch"
        if p["mode"] == "plain":
            k["gap_layers"], k["name_layers"] = [], []
        if p["layers"]:
            a, b, c = p["layers"]
            k["poly_layers"] = [(0, 7), tuple(a)]
            if p["mode"] != "plain":
                k["gap_layers"] = [(0, 7), tuple(b)]
                k["name_layers"] = [77, c[0]]
        return Polygons.from_gds(disk, **k)

    def wanted(self):
        """[(name, geometry)] to be found, in order"""
        from shapely import geometry
        p, out = self.plan, []
        clip = None
        for e in (p["edge_out"], self.edge()/p["s"]):
            if e:
                clip = e if clip is None else min(clip, e)
        e = clip*p["s"]/2
        box = geometry.box(-e, -e, e, e)
        full = self.plan["edge_out"] and self.plan["edge_out"]*p["s"]/2
        self.clipped = False
        for (n, c), (_, q) in zip(self.model, self.cur):
            r = q.intersection(box)
            inner = self.edge()/2
            if q.difference(geometry.box(-inner, -inner, inner, inner)
                            ).area > 0:
                self.sim.probe("clipped-on-import")
                self.clipped = True
            if full and q.difference(geometry.box(
                    -full, -full, full, full)).area > 0:
                self.sim.probe("clipped-on-export")
            if r.area > 1e-9*p["s"]**2:
                out.append((n, r))
        return out


def fold(items, tol):
    """merge runs of the same name"""
    from shapely import ops
    out = []
    for n, q in items:
        if q.area <= tol*1e-3:
            continue
        if out and out[-1][0] == n:
            out[-1][1].append(q)
        else:
            out.append([n, [q]])
    return [(n, ops.unary_union(q)) if len(q) > 1 else (n, q[0])
            for n, q in out]


def execute(plan, sim):
    import gdsii.library
    import gdsii.structure
    warnings.simplefilter("ignore")
    sim.now = 0
    clock = Clock(plan["clock"], sim)
    saved = gdsii.library.datetime, gdsii.structure.datetime
    gdsii.library.datetime = gdsii.structure.datetime = clock
    try:
        history(plan, sim)
    finally:
        gdsii.library.datetime, gdsii.structure.datetime = saved


def history(plan, sim):
    r = Run(plan, sim)
    reach(r, plan, sim)
    before = c18.snap(r.cur)
    if any(ord(ch) > 127 for n, _ in r.model for ch in n):
        sim.probe("non-ascii")
        lib, err = attempt(r.export)
        if err is not None:
            # refused, not mangled
            sim.check(isinstance(err, ValueError), "unexpected-failure",
                      lambda: core.short_tb(err))
            sim.check(c18.snap(r.cur) == before, "input-changed", "export")
            return
    for k, o in enumerate(plan["ops"]):
        where = "step %d %s" % (k, o["op"])
        if o["op"] in ("save",) and r.lib is None:
            continue
        if o["op"] in ("load", "again") and r.data is None:
            continue
        out = {"export": do_export, "save": do_save, "load": do_load,
               "again": do_again}[o["op"]](r, o, where, sim)
        sim.check(c18.snap(r.cur) == before, "input-changed", lambda:
                  "%s: the exported electrodes have changed" % where)
        sim.log(o["op"], o["fault"] and o["fault"][0], out)
        sim.state(plan["mode"], o["op"], o["fault"] and o["fault"][0], out,
                  len(r.model), bool(plan["edge_out"]), plan["edge_in"])


def reach(r, plan, sim):
    sim.probe({"gaps": "gaps-only"}.get(plan["mode"], plan["mode"]))
    if not r.model:
        sim.probe("empty")
    for n, c in r.model:
        comp = c18.components(c)
        if len(comp) > 1:
            sim.probe("multi-piece")
        if any(c18.holes(i) for i in comp):
            sim.probe("holes")
            if any(any(j <= h for h in c18.holes(i)) for i in comp
                   for j in comp):
                sim.probe("islands")
    names = [n for n, _ in r.model]
    if "" in names and any(names):
        sim.probe("unnamed-neighbour")
    if plan["other"]:
        sim.probe("several-structures")
    if plan["rot"]:
        sim.probe("rotated")
    if plan["layers"]:
        sim.probe("layers-selected")
    if abs(plan["s"]/r.unit - round(plan["s"]/r.unit)) > 1e-6:
        sim.probe("rounded")


def interrupter(o, fn):
    f = o["fault"]
    if f and f[0] == "int":
        n = [0]

        def go():
            n[0] = count_lines(lambda: quiet(fn))
        _, err = attempt(go)
        if n[0]:
            return Interrupter(1 + int(f[1]*n[0]), f[2])


def faulted(r, fn, it, o, where, sim):
    """runs, checks that the interruption came out, and repeats"""
    res, err = attempt(fn, it)
    if it and it.fired:
        sim.fault("interrupt")
        sim.check(err is not None, "failure-swallowed", lambda: "%s: went on "
                  "after being interrupted" % where)
        sim.check(is_injected(err), "failure-replaced", lambda: "%s: %s" % (
            where, core.short_tb(err)))
        sim.probe("repeated-after-fault")
        res, err = attempt(fn)
    sim.check(err is None, "unexpected-failure", lambda: "%s: %s" % (
        where, core.short_tb(err)))
    return res


def do_export(r, o, where, sim):
    r.lib = faulted(r, r.export, interrupter(o, r.export), o, where, sim)
    if not r.plan["routes"]:
        check_layers(r, where, sim)
        if r.plan.get("foreign"):
            r.foreign()
    return "ok"


def check_layers(r, where, sim):
    """drawn where asked for"""
    from gdsii import elements
    k = r.export_args()
    s, = [i for i in r.lib if i.name.decode() == k.get(
        "name", "trap_electrodes")]
    want = {elements.Boundary: k.get("poly_layer", (0, 0)),
            elements.Path: k.get("gap_layer", (1, 0)),
            elements.Text: k.get("text_layer", (0, 0))}
    width = int(r.plan["width"]*r.plan["scale"]/r.plan["phys"])
    for e in s:
        t = e.text_type if isinstance(e, elements.Text) else e.data_type
        sim.check((e.layer, t) == want[type(e)], "layer", lambda: "%s: %s "
                  "in layer %s, expected %s" % (where, type(e).__name__, (
                      e.layer, t), want[type(e)]))
        sim.check(not isinstance(e, elements.Path) or abs(
            e.width - width) <= 1, "width", lambda: "%s: gap width %s, "
            "expected %s" % (where, e.width, width))


def do_save(r, o, where, sim):
    f = o["fault"]
    dry = Disk()
    _, err = attempt(lambda: r.lib.save(dry))
    sim.check(err is None, "unexpected-failure", lambda: "%s: %s" % (
        where, core.short_tb(err)))
    if f and f[0] == "write":
        d = Disk(fault=["write", 1 + int(f[1]*dry.calls), f[2]], sim=sim)
    elif f and f[0] == "torn":
        d = Disk(fault=["torn", int(f[1]*len(dry.getvalue()))], sim=sim)
    else:
        r.data = dry.getvalue()
        return "ok"
    _, err = attempt(lambda: r.lib.save(d))
    sim.check(err is not None, "failure-swallowed", lambda: "%s: saved "
              "although the disk failed" % where)
    # what is on the disk is no layout, unless all of it got there
    if d.getvalue() == dry.getvalue():
        judge(r, attempt(lambda: r.load(io.BytesIO(d.getvalue()))), where,
              sim)
    else:
        reject(r, d.getvalue(), where, sim)
    # saved again
    d = Disk()
    _, err = attempt(lambda: r.lib.save(d))
    sim.check(err is None, "unexpected-failure", lambda: "%s: %s" % (
        where, core.short_tb(err)))
    sim.check(d.getvalue() == dry.getvalue(), "not-repeatable", lambda:
              "%s: another file after a failed write" % where)
    sim.probe("repeated-after-fault")
    r.data = d.getvalue()
    return "failed"


def reject(r, data, where, sim):
    res, err = attempt(lambda: r.load(io.BytesIO(data)))
    sim.check(err is not None, "torn-file-accepted", lambda: "%s: %d of the "
              "file's bytes were read as %s" % (
                  where, len(data), [(n, p.area) for n, p in res]))
    sim.probe("torn-file-rejected")


def do_load(r, o, where, sim):
    f = o["fault"]
    if o["wrong"]:
        sim.probe("unknown-structure")
        res, err = attempt(lambda: r.load(io.BytesIO(r.data), wrong=True))
        sim.check(err is not None, "wrong-structure", lambda: "%s: a "
                  "structure that is not there was read as %s" % (
                      where, [(n, p.area) for n, p in res]))
    if o["path"]:
        sim.probe("path-name")
        fd, name = tempfile.mkstemp(suffix=".gds", dir=SCRATCH)
        try:
            with os.fdopen(fd, "wb") as h:
                h.write(r.data)
            judge(r, attempt(lambda: r.load(name)), where, sim)
        finally:
            os.unlink(name)
    out = "ok"
    if f and f[0] == "trunc":
        sim.fault("truncated")
        reject(r, r.data[:int(f[1]*len(r.data))], where, sim)
        out = "rejected"
    elif f and f[0] in ("read", "short"):
        dry = Disk(r.data)
        attempt(lambda: r.load(dry))
        d = Disk(r.data, [f[0], 1 + int(f[1]*dry.calls), f[2]], sim)
        res = attempt(lambda: r.load(d))
        if d.fired and f[0] == "read":
            sim.check(res[1] is not None, "failure-swallowed", lambda:
                      "%s: loaded although the disk failed" % where)
            sim.check(is_injected(res[1]), "failure-replaced", lambda:
                      "%s: %s" % (where, core.short_tb(res[1])))
            sim.probe("repeated-after-fault")
            out = "failed"
        elif res[1] is None:
            judge(r, res, where, sim)
            sim.probe("short-read-survived")
    fn = lambda: r.load(io.BytesIO(r.data))
    got = faulted(r, fn, interrupter(o, fn), o, where, sim)
    judge(r, (got, None), where, sim)
    return out


def do_again(r, o, where, sim):
    """what was imported is exported and imported again"""
    if r.plan["mode"] != "plain":
        return "skipped"
    from electrode.polygons import Polygons
    fn = lambda: r.load(io.BytesIO(r.data))
    got = faulted(r, fn, None, o, where, sim)

    def trip():
        d = Disk()
        r.export(got).save(d)
        return r.load(io.BytesIO(d.getvalue()))
    got2 = faulted(r, trip, interrupter(o, trip), o, where, sim)
    judge(r, (got2, None), where, sim)
    sim.probe("second-round-trip")
    return "ok"


def same(a, b, tol):
    """geometries that may be slightly invalid"""
    if abs(a.area - b.area) > tol:
        return False
    return a.buffer(0).symmetric_difference(b.buffer(0)).area <= tol


def judge(r, res, where, sim):
    from electrode.polygons import Polygons
    res, err = res
    sim.check(err is None, "unexpected-failure", lambda: "%s: %s" % (
        where, core.short_tb(err)))
    sim.check(isinstance(res, Polygons), "kind", where)
    if r.plan["routes"]:
        return judge_routes(r, res, where, sim)
    want = r.wanted()
    tol = r.tol([q for _, q in r.cur])
    mode = r.plan["mode"]
    if mode == "plain":
        got, exp = fold(res, tol), fold(want, tol)
        sim.check([n for n, _ in got] == [n for n, _ in exp], "names",
                  lambda: "%s: electrodes %s, expected %s" % (
                      where, [n for n, _ in got], [n for n, _ in exp]))
        for (n, a), (_, b) in zip(got, exp):
            sim.check(abs(a.area - b.area) <= tol and same(a, b, tol),
                      "area", lambda: "%s: electrode %r has area %s, "
                      "expected %s" % (where, n, a.area, b.area))
        return
    # the rest of the field comes as unnamed electrodes
    got = [(n, q) for n, q in res if n and q.area > tol*1e-3]
    exp = [(n, q) for n, q in want if n]
    if r.clipped:
        # the label may have been cut off
        got, exp = sorted(got, key=first), sorted(exp, key=first)
        if mode == "gaps":
            return
    got, exp = fold(got, tol), fold(exp, tol)
    if len(set(n for n, _ in exp)) < len(exp):
        got, exp = (fold(sorted(i, key=first), tol) for i in (got, exp))
    sim.check([n for n, _ in got] == [n for n, _ in exp], "names", lambda:
              "%s: electrodes %s, expected %s" % (
                  where, [n for n, _ in got], [n for n, _ in exp]))
    for (n, a), (_, b) in zip(got, exp):
        sim.check(same(a, b, tol), "area", lambda: "%s: electrode %r has "
                  "area %s, expected %s" % (where, n, a.area, b.area))
    if mode == "default":
        # unnamed ones, in order, come before the field
        for n, q in want:
            if n:
                continue
            a = [p for m, p in res if not m and p.buffer(0).intersection(
                q).area > p.area/2]
            sim.check(abs(sum(p.area for p in a) - q.area) <= tol, "area",
                      lambda: "%s: an unnamed electrode of area %s, expected "
                      "%s" % (where, sum(p.area for p in a), q.area))
    total = sum(p.area for _, p in res)
    # with nothing to cut it there is no field
    full = self_area(r)
    sim.check(abs(total - full) <= tol + 1e-8*full, "field", lambda: "%s: "
              "total area %s, expected %s" % (where, total, full))


def holed(p, rect):
    x0, y0, x1, y1 = rect
    return p["order"] % 2 and x1 - x0 > 2 and y1 - y0 > 2


def segments(paths):
    out = set()
    for p in paths:
        for (a, b), (c, d) in zip(p[:-1], p[1:]):
            if a == c:
                out |= set((a, y, 1) for y in range(min(b, d), max(b, d)))
            else:
                out |= set((x, b, 0) for x in range(min(a, c), max(a, c)))
    return out


def regions(free, cut):
    """connected cells, where segments cut"""
    left, out = set(free), []
    while left:
        todo = [min(left)]
        left.remove(todo[0])
        comp = set(todo)
        while todo:
            x, y = todo.pop()
            for n, e in (((x-1, y), (x, y, 1)), ((x+1, y), (x+1, y, 1)),
                         ((x, y-1), (x, y, 0)), ((x, y+1), (x, y+1, 0))):
                if n in left and e not in cut:
                    left.remove(n)
                    comp.add(n)
                    todo.append(n)
        out.append(frozenset(comp))
    return out


def judge_routes(r, res, where, sim):
    """the pieces are those of the model"""
    from shapely import geometry
    p = r.plan["routes"]
    gaps, routes = segments(p["gaps"]), segments(p["routes"])
    field = set((x, y) for x in range(M) for y in range(M))
    out = set((x, y) for x in range(-2, M+2) for y in range(-2, M+2))
    inside = set()
    if routes and segments(p["bridges"]):
        # what is enclosed by routes and bridges is not cut by gaps
        for c in regions(out, routes | segments(p["bridges"])):
            if (-2, -2) not in c:
                inside |= c
                sim.probe("bridged")
    cut = set(routes)
    for x, y, v in gaps:
        if not ((x, y) in inside and (x-v, y-1+v) in inside):
            cut.add((x, y, v))
    want = []
    free = set(field)
    for n, (x0, y0, x1, y1) in p["polys"]:
        c = set((x, y) for x in range(x0, x1) for y in range(y0, y1))
        if holed(p, (x0, y0, x1, y1)):
            c -= set((x, y) for x in range(x0+1, x1-1)
                     for y in range(y0+1, y1-1))
        want.append((n, frozenset(c)))
        free -= c
    pieces = [("", c) for c in regions(free, cut)] if gaps or routes else []
    if len(pieces) > 1:
        sim.probe("cut-in-pieces")
    # the polygons come first, the pieces have no order
    names = {}
    left = want + pieces
    for n, at in p["texts"]:
        hit = [i for i in left if tuple(at) in i[1]][:1]
        for i in hit:
            k = [j is i for j in left].index(True)
            del left[k]
            names.setdefault(n, []).append(i[1])
            sim.probe("piece-named")
    for n, c in left:
        names.setdefault(n, []).append(c)
    tol = 8*r.unit*M*r.plan["s"]*M + 1e-6*r.plan["s"]**2
    got = {}
    for n, q in res:
        got.setdefault(n, []).append(cover(r, q))
    for n in names:
        got.setdefault(n, [])
    sim.check(sorted(got) == sorted(names), "names", lambda: "%s: %s, "
              "expected %s" % (where, sorted(got), sorted(names)))
    for n in sorted(names):
        a, b = sorted(sorted(i) for i in got[n] if i), sorted(
            sorted(i) for i in names[n])
        sim.check(a == b, "area", lambda: "%s: electrode %r has the pieces "
                  "%s, expected %s" % (where, n, a, b))
    area = sum(q.area for _, q in res)
    full = sum(len(c) for i in names.values() for c in i)*r.plan["s"]**2
    sim.check(abs(area - full) <= tol, "area", lambda: "%s: total area %s, "
              "expected %s" % (where, area, full))


def cover(r, q):
    g = c18.Grid({"rot": 0., "s": r.plan["s"], "at": [-M/2., -M/2.], "flip": False})
    return g.read(q)[0]


def first(i):
    return i[0]


def self_area(r):
    from shapely import geometry
    e = (r.plan["edge_out"] or 1e6)*r.plan["s"]/2
    box = geometry.box(-e, -e, e, e)
    if any(q.intersection(box).area for _, q in r.cur):
        return r.edge()**2
    return 0.
