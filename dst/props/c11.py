"""Xic layouts are read independently of line delivery."""
import copy
import io
import os
import tempfile

import numpy as np

from .. import core
from ..core import Interrupter, count_lines, is_injected, make_exc

ID = "C11"
RUNS = {"quick": 12000, "thorough": 300000}
BATCH = 50
RULE = ("A run lays out random polygons as an Xic file, with points of a "
        "polygon spread over one or several lines, layer and other unrelated "
        "lines and blank lines around and inside, three line ending styles, "
        "and reads it through a random kind of line source: list, tuple, "
        "generator, file, text stream with short reads, once or again after "
        "a failure. The source is truncated at any character, corrupted at "
        "a coordinate, fails at any line or in the middle of a line, or the "
        "reader is interrupted at any executed line. Non-trivial: a fault "
        "fired.")
REAL = ["electrode.xic.xic_to_list", "io text layer"]
STUB = ["in-memory simulated file with short reads and read errors"]
STATE_MEASURE = ("distinct (source kind, newline style, fault, polygons, "
                 "lines per polygon, outcome)")
FAULTS = ["truncated", "corrupted", "read-error", "interrupt", "short-reads"]
PROBES = ["multi-line", "one-line", "noise-inside", "unterminated",
          "malformed-raises", "read-again", "no-final-newline", "empty",
          "blank-lines", "many-points", "lines-tuple", "lines-list",
          "lines-generator", "lines-stream", "lines-file"]
ASSUMPTIONS = ["coordinates of a polygon stand on its P line and on the "
               "indented lines that follow, the last ending with ;"]
SHRINK = ("polys", "reads")
ASYNC = ["KeyboardInterrupt", "MemoryError", "InjectedBase"]
EXC = ["OSError", "Injected", "ValueError", "KeyboardInterrupt",
       "InjectedBase", "MemoryError", "RuntimeError"]
NOISE = ["L 41;", "L RFEL;", "9 top;", "( comment P 1 2 );", "DS 1 1 1;",
         "DF;", "C 1;", "B 100 100 0 0;", "E", "-- 1 2", "94 lab 3 4;",
         "W 100 0 0;", "(Symbol);"]


def gen_coord(rng):
    r = rng.random()
    if r < .7:
        return str(rng.randint(-100000, 100000))
    if r < .85:
        return "%.3f" % rng.uniform(-1e4, 1e4)
    return rng.choice(["0", "-0", "1e3", "+5", "1E-2", "-12345678901",
                       ".5", "7."])


def gen(rng, idx):
    polys = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        n = rng.choice([1, 2, 3, 3, 4, 5, 8, 30])
        pts = [[gen_coord(rng), gen_coord(rng)] for _ in range(n)]
        if rng.random() < .25:
            pts.append(list(pts[0]))
        if rng.random() < .1:
            pts.insert(n//2, list(pts[n//2]))
        style = rng.choice(["xic"]*4 + ["one", "some", "head"])
        polys.append({
            "pts": pts, "style": style, "per": rng.randint(1, 4),
            "indent": rng.choice([1, 1, 1, 2, 8]),
            "sep": rng.choice([" ", " ", "  ", "\t"]),
            "semi": rng.choice([";", ";", " ;"]),
            "tail": rng.choice(["", "", " ", "   "]),
            "before": [rng.choice(NOISE + ["", " (note);", "  9 top;",
                                           "  12 3;"]) for _ in range(
                rng.choice([0, 0, 1, 2]))],
            "blank": rng.choice([None]*5 + [rng.randint(0, 9)]),
            "fault": rng.choice([None]*7 + [[
                "bad", rng.random(), rng.choice(
                    ["x", "1,2", "--1", "1e", "0x10", "one", "1.2.3"])],
                ["odd", rng.random()], ["lost"]])})
    reads = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = {"src": rng.choice(["list", "tuple", "generator", "iterator",
                                "stream", "stream", "file", "stringio"]),
             "ends": rng.random() < .5, "chunk": rng.choice([1, 2, 7, 4096]),
             "fault": None}
        f = rng.random()
        if f < .2:
            r["fault"] = ["cut", round(rng.random(), 5)]
        elif f < .4:
            r["fault"] = ["error", round(rng.random(), 5), rng.choice(EXC)]
        elif f < .55:
            r["fault"] = ["int", round(rng.random(), 5), rng.choice(ASYNC)]
        reads.append(r)
    return {"polys": polys, "reads": reads,
            "nl": rng.choice(["\n", "\n", "\r\n", "\r"]),
            "final": rng.random() < .8,
            "after": [rng.choice(NOISE + [""]) for _ in range(
                rng.choice([0, 1, 3]))]}


def shrink(plan):
    for k, p in enumerate(plan["polys"]):
        for key, v in (("pts", p["pts"][:1]), ("pts", p["pts"][:3]),
                       ("before", []), ("blank", None), ("tail", ""),
                       ("semi", ";"), ("sep", " "), ("indent", 1),
                       ("style", "xic"), ("fault", None)):
            if p[key] != v:
                c = copy.deepcopy(plan)
                c["polys"][k][key] = v
                yield c
    for k, r in enumerate(plan["reads"]):
        for key, v in (("fault", None), ("src", "list"), ("chunk", 4096)):
            if r[key] != v:
                c = copy.deepcopy(plan)
                c["reads"][k][key] = v
                yield c
    for key, v in (("nl", "\n"), ("final", True), ("after", [])):
        if plan[key] != v:
            c = copy.deepcopy(plan)
            c[key] = v
            yield c


def layout(p):
    """lines of a polygon and whether it is well formed"""
    pts = [list(i) for i in p["pts"]]
    f = p["fault"]
    n = len(pts)
    if f and f[0] == "bad":
        pts[int(f[1]*n)][int(f[1]*97) % 2] = f[2]
    if f and f[0] == "odd":
        del pts[int(f[1]*n)][int(f[1]*97) % 2]
    if p["style"] == "xic":
        groups = [[i] for i in pts]
    elif p["style"] == "one":
        groups = [pts]
    elif p["style"] == "some":
        groups = [pts[i:i+p["per"]] for i in range(0, n, p["per"])]
    else:
        groups = [[]] + [[i] for i in pts]
    lines = []
    for k, g in enumerate(groups):
        s = p["sep"].join(p["sep"].join(i) for i in g)
        if k == 0:
            lines.append(("P " + s).rstrip())
        else:
            lines.append(" "*p["indent"] + s)
    if not (f and f[0] == "lost"):
        lines[-1] += p["semi"]
    lines = [i + p["tail"] for i in lines]
    if p["blank"] is not None:
        lines.insert(1 + p["blank"] % len(lines), "  ")
    return lines


class Raw(io.RawIOBase):
    """A simulated file: short reads, and an error at a position."""

    def __init__(self, data, chunk, at, exc, sim):
        self.d, self.p, self.chunk = data, 0, chunk
        self.at, self.exc, self.sim = at, exc, sim
        self.failed = False

    def readable(self):
        return True

    def readinto(self, b):
        n = min(len(b), self.chunk, len(self.d) - self.p)
        if self.at is not None and self.p + n > self.at:
            n = self.at - self.p
            if n <= 0:
                self.failed = True
                raise self.exc
        b[:n] = self.d[self.p:self.p+n]
        self.p += n
        return n


def expected(text, polys):
    """polygons whose terminator is in the text; the number of the first
    malformed one"""
    out, bad = [], None
    for p, end in polys:
        f = p["fault"]
        if end is None or end > len(text):
            continue
        if f and f[0] in ("bad", "odd"):
            bad = len(out)
            break
        out.append(np.array([[float(j) for j in i] for i in p["pts"]])*1e-8)
    return out, bad


def build(plan):
    """text, polygons with the position after their terminator"""
    nl = plan["nl"]
    text = ""
    polys = []
    lost = False
    for p in plan["polys"]:
        for i in p["before"]:
            # an unterminated polygon goes on with indented lines
            if not (lost and i.startswith(" ")):
                text += i + nl
        lost = bool(p["fault"] and p["fault"][0] == "lost")
        lines = layout(p)
        for i in lines:
            text += i + nl
        end = None
        if not (p["fault"] and p["fault"][0] == "lost"):
            end = text.rindex(";") + 1
        polys.append((p, end))
    for i in plan["after"]:
        text += i + nl
    if not plan["final"] and text.endswith(nl):
        text = text[:-len(nl)]
    return text, polys


def execute(plan, sim):
    from electrode.xic import xic_to_list
    text, polys = build(plan)
    for p, _ in polys:
        sim.probe("one-line" if p["style"] == "one" else "multi-line")
        if len(p["pts"]) > 20:
            sim.probe("many-points")
        if p["blank"] is not None:
            sim.probe("blank-lines")
        if p["before"]:
            sim.probe("noise-inside")
        if p["fault"] and p["fault"][0] == "lost":
            sim.fault("truncated")
            sim.probe("unterminated")
        elif p["fault"]:
            sim.fault("corrupted")
    if not plan["final"]:
        sim.probe("no-final-newline")
    if not polys:
        sim.probe("empty")
    failed = False
    for k, r in enumerate(plan["reads"]):
        failed = read(plan, k, r, text, polys, xic_to_list, sim, failed)


def read(plan, k, r, text, polys, xic_to_list, sim, failed):
    where = "read %d (%s)" % (k, r["src"])
    f = r["fault"]
    if f and f[0] == "cut":
        text = text[:int(f[1]*len(text))]
        sim.fault("truncated")
    exc = make_exc(f[2], "read") if f and f[0] == "error" else None
    data = text.encode()
    tmp = None
    fired = [0]

    def source():
        if r["src"] == "stringio":
            return io.StringIO(text, newline=None)
        if r["src"] in ("stream", "file"):
            at = int(f[1]*(len(data)+1)) if exc is not None else None
            raw = Raw(data, r["chunk"], at, exc, sim)
            if r["chunk"] < len(data):
                sim.fault("short-reads")
            return raw
        lines = io.StringIO(text, newline=None).readlines()
        if not r["ends"]:
            lines = [i.rstrip("\n") for i in lines]
        if r["src"] == "list":
            return lines
        if r["src"] == "tuple":
            return tuple(lines)
        if r["src"] == "iterator":
            return iter(lines)

        def g():
            at = int(f[1]*(len(lines)+1)) if exc is not None else None
            for i, l in enumerate(lines):
                if i == at:
                    fired[0] = 1
                    raise exc
                yield l
            if at == len(lines):
                fired[0] = 1
                raise exc
        return g()

    want, bad = expected(text, polys)
    src = raw = source()
    if isinstance(raw, Raw):
        src = io.TextIOWrapper(io.BufferedReader(raw, 16), encoding="utf-8",
                               newline=None)
        if r["src"] == "file":
            # a real file, read line by line
            d = tempfile.mkdtemp(prefix="dst-c11-")
            tmp = os.path.join(d, "x.xic")
            with open(tmp, "wb") as fd:
                fd.write(data)
            src = open(tmp, newline=None)
            raw = None
    keep = list(src) if isinstance(src, (list, tuple)) else None
    it = None
    if f and f[0] == "int":
        n = count_lines(lambda: xic_to_list(
            io.StringIO(text, newline=None)))
        if n:
            it = Interrupter(1 + int(f[1]*n), f[2])
    res = err = None
    try:
        if it:
            res = it.run(lambda: xic_to_list(src))
        else:
            res = xic_to_list(src)
    except BaseException as e:
        err = e
    finally:
        if tmp:
            src.close()
            os.unlink(tmp)
            os.rmdir(os.path.dirname(tmp))
    sim.probe("lines-" + {"iterator": "generator", "stringio": "stream"}.get(
        r["src"], r["src"]))
    if it and it.fired:
        sim.fault("interrupt")
        fired[0] = 1
    if raw is not None and isinstance(raw, Raw) and raw.failed:
        fired[0] = 1
    if fired[0] and f[0] == "error":
        sim.fault("read-error")
    if keep is not None:
        sim.check(list(src) == keep, "source-changed", where)
    sim.log("read", k, type(err).__name__ if err else len(res))
    sim.state(r["src"], plan["nl"], f[0] if f else "", len(want),
              [p["style"] for p, _ in polys], type(err).__name__)
    if fired[0]:
        if bad is not None and err is not None and not is_injected(err):
            # met the malformed polygon first
            return True
        sim.check(err is not None, "failure-swallowed", lambda: "%s: "
                  "succeeded after %s" % (where, f))
        sim.check(is_injected(err), "failure-replaced", lambda: "%s: %s" % (
            where, core.short_tb(err)))
        return True
    if bad is not None:
        sim.check(err is not None, "malformed-accepted", lambda: "%s: "
                  "polygon %d %s read as %s" % (where, bad, layout(
                      polys[bad][0]), res))
        sim.probe("malformed-raises")
        return True
    sim.check(err is None, "unexpected-failure", lambda: "%s: %s of %r" % (
        where, core.short_tb(err), text[:200]))
    sim.check(isinstance(res, list) and len(res) == len(want),
              "wrong-polygons", lambda: "%s: %d polygons, expected %d: %r" % (
                  where, len(res), len(want), text[:200]))
    for i, (g, w) in enumerate(zip(res, want)):
        sim.check(np.shape(g) == w.shape and np.allclose(
            g, w, rtol=1e-12, atol=1e-22), "wrong-points", lambda: "%s: "
            "polygon %d is %s, expected %s" % (where, i, g, w))
    if failed:
        sim.probe("read-again")
    return failed
