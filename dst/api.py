"""Runs planned sessions against the library API.  Executed in a fresh,
forked process; imports the package under test."""
import io
import os
import sys
import warnings

from . import hbuild, hidref, render, sched, world


def preload():
    import hrdc.converter, hrdc.stream, hrdc.descriptor, hrdc.usage  # noqa
    import hrdc.descriptor.dumper, hrdc.descriptor.extractor  # noqa
    import hrdc.stream.item  # noqa
    import unittest, difflib, pprint  # noqa
    import importlib, pkgutil, hrdc
    for m in pkgutil.walk_packages(hrdc.__path__, "hrdc."):
        # no import is left to be done while threads are being scheduled
        if not m.name.endswith("__main__") and not m.name.startswith("hrdc.usage."):
            try:
                importlib.import_module(m.name)
            except Exception:
                pass


def without_asserts():
    """Load the package again as an interpreter started with -O does."""
    import importlib.machinery as m

    class Loader(m.SourceFileLoader):
        def get_code(self, name):
            path = self.get_filename(name)
            return compile(self.get_data(path), path, "exec", dont_inherit=True, optimize=1)
    for n in list(sys.modules):
        if n == "hrdc" or n.startswith("hrdc."):
            del sys.modules[n]
    sys.path_hooks.insert(0, m.FileFinder.path_hook((Loader, [".py"])))
    sys.path_importer_cache.clear()
    preload()


def _formatter(s, sink):
    from hrdc.stream import formatter, Optimizer
    st = formatter.Formatter.get(s["ofmt"])(sink)
    if s.get("opt"):
        st = Optimizer.new(st, s["opt"][0], s["opt"][1])
    return st


class Session:
    def __init__(self, s, shared, mutable):
        self.s = s
        self.mutable = mutable
        self.w = world.World(s.get("faults", ()))
        self.w.crash = lambda: os._exit(world.CRASH_STATUS)
        self.shared = shared
        self.line = None
        for f in s.get("faults", ()):
            if f.get("op") == "line":
                self.line = f
        self.status = "unstarted"
        self.exc = None
        self.phase = None
        self.lines = 0
        self.strike = None
        self.raw = None
        self.sink = None
        self.src_raw = None
        self.at_failure = None

    # -- the operations
    def prepare(self):
        s = self.s
        text = s.get("ofmt") != "binary" or s["op"] == "decompile"
        self.raw, self.sink = world.make_sink(self.w, "snk", s["snk"], text)
        if "in" in s:
            data = render.render(s["in"])
            self.src_raw, self.src = world.make_source(
                self.w, "src", data, s["src"], s["in"]["fmt"] != "binary")
        if s["op"] in ("compile", "expect"):
            key = s.get("share")
            if key is not None and key in self.shared and self.shared[key][1] == s["tree"]:
                self.tree = self.shared[key][0]
            elif key is not None and key in self.shared and self.mutable:
                # the caller changed the tree since
                self.tree = hbuild.morph(*self.shared[key], s["tree"])
                self.shared[key] = self.tree, s["tree"]
            elif not s.get("late_build"):
                if s.get("define"):
                    self.define(s["define"])
                self.tree = hbuild.build(s["tree"])
                if key is not None:
                    self.shared[key] = self.tree, s["tree"]

    @staticmethod
    def define(ns):
        from hrdc.usage import button, ordinal
        for n in ns:
            button.Button(n)
            ordinal.Ordinal(n)

    def steps(self):
        """Generator performing the operation, yielding between items."""
        from hrdc.stream import item, parser
        s = self.s
        self.phase = "run"
        if s["op"] == "convert":
            src, fmt = self.src, s["in"]["fmt"]
            for st in s.get("via", ()):
                # an earlier conversion whose output is this one's input
                mid = io.BytesIO() if st["ofmt"] == "binary" else io.StringIO()
                parser.Parser.get(fmt)(src, _formatter(st, mid)).read()
                mid.seek(0)
                src, fmt = mid, st["ofmt"]
            parser.Parser.get(fmt)(src, _formatter(s, self.sink)).read()
        elif s["op"] == "compile":
            from hrdc.descriptor import Streamer
            if s.get("late_build"):
                self.define(s.get("define") or ())
                self.tree = hbuild.build(s["tree"])
            st = _formatter(s, self.sink)
            self.tree.accept(Streamer(st))
            st.close()
        elif s["op"] == "decompile":
            from hrdc.descriptor.extractor import Extractor
            from hrdc.descriptor.dumper import Dumper
            e = Extractor()
            parser.Parser.get(s["in"]["fmt"])(self.src, e).read()
            e.root.accept(Dumper(self.sink))
        elif s["op"] == "expect":
            import unittest
            from hrdc.descriptor.test import descriptor_expected
            descriptor_expected(unittest.TestCase(), self.tree, s["text"])
        elif s["op"] == "feed":
            st = _formatter(s, self.sink)
            for it in s["items"]:
                st.append(item.Item.parse(hidref.encode_item(*it)))
                yield
            if s.get("abandon"):
                self.status = "abandoned"
                return
            st.close()
        else:
            raise AssertionError(s["op"])
        self.phase = "flush"
        if hasattr(self.sink, "flush"):
            self.sink.flush()
        self.status = "ok"
        return
        yield

    def failed(self, e):
        self.status = "exc"
        self.exc = type(e).__name__
        self.msg = str(e)[:200]
        self.at_failure = len(self.raw.sink) if self.raw else 0

    def run(self):
        tracer = None
        try:
            self.prepare()
            if self.line is not None or self.s.get("count_lines"):
                tracer = world.LineTracer(self.w, world.package_dir(), self.line)
                with tracer:
                    for _ in self.steps():
                        pass
            else:
                for _ in self.steps():
                    pass
        except BaseException as e:
            sys.settrace(None)
            self.failed(e)
        if tracer:
            self.lines = tracer.n
            self.strike = tracer.where
            self.locs = list(tracer.locs.values())

    def finish(self):
        """The client lets go of its streams."""
        self.done_fired = list(self.w.fired)
        self.tree = None
        if self.raw is None:
            return
        self.w.point = None
        try:
            if hasattr(self.sink, "close"):
                self.sink.close()
        except BaseException:
            pass

    def result(self):
        return {"status": self.status, "exc": self.exc, "phase": self.phase,
                "msg": getattr(self, "msg", None),
                "data": bytes(self.raw.sink) if self.raw else b"",
                "at_failure": self.at_failure,
                "fired": self.w.fired, "done_fired": getattr(self, "done_fired", []), "lines": self.lines, "locs": getattr(self, "locs", None), "strike": self.strike,
                "log": self.w.log}


def nested(ss, at):
    """Operations inside each other: operation k starts, and ends, while the
    one given by at[k - 1] is at its n-th executed line or transfer (as from a
    signal handler, or from a stream that uses the library itself)."""
    trace = []
    waiting = {}
    for k, (parent, kind, n) in enumerate(at[:len(ss) - 1], 1):
        waiting.setdefault(parent % k, []).append((kind, n, k))

    def live(k):
        s = ss[k]
        mine = sorted(waiting.pop(k, ()))
        seen = {"line": 0, "io": 0}

        def event(kind):
            seen[kind] += 1
            while mine and any(x[:2] == (kind, seen[kind]) for x in mine):
                x = next(x for x in mine if x[:2] == (kind, seen[kind]))
                mine.remove(x)
                trace.append((k, kind, seen[kind], x[2]))
                old = sys.gettrace()
                live(x[2])
                sys.settrace(old)
        try:
            s.prepare()
            s.w.point = lambda _: event("io")
            if any(x[0] == "line" for x in mine):
                s.w.line_point = lambda _: event("line")
                with world.LineTracer(s.w, world.package_dir()):
                    for _ in s.steps():
                        pass
            else:
                for _ in s.steps():
                    pass
        except BaseException as e:
            sys.settrace(None)
            s.failed(e)
        s.w.point = s.w.line_point = None
        for x in mine:
            # it ended before: one after the other
            live(x[2])
    for k in range(len(ss)):
        if ss[k].status == "unstarted" and ss[k].raw is None:
            live(k)
    return trace


def run_sessions(plan):
    """-> {"results": [...], "sched": [...]}"""
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    warnings.simplefilter("ignore")
    shared = {}
    sp = plan.get("schedule") or {"mode": "seq"}
    ss = [Session(s, shared, sp["mode"] == "seq") for s in plan["sessions"]]
    out = {}
    if sp["mode"] == "seq":
        for k, s in enumerate(ss):
            s.run()
            s.finish()
            for key in list(shared):
                if not any(x.s.get("share") == key for x in ss[k + 1:]):
                    # nobody uses this tree any more
                    del shared[key]
    elif sp["mode"] == "interleave":
        gens = []
        for s in ss:
            try:
                s.prepare()
                gens.append(s.steps())
            except BaseException as e:
                s.failed(e)
                gens.append(None)

        def step(i):
            try:
                next(gens[i])
            except StopIteration:
                gens[i] = None
            except BaseException as e:
                ss[i].failed(e)
                gens[i] = None

        for i in sp["order"]:
            i %= len(gens)
            if gens[i] is not None:
                step(i)
        for i in range(len(gens)):
            while gens[i] is not None:
                step(i)
        for s in ss:
            s.finish()
    elif sp["mode"] == "nested":
        out["sched"] = nested(ss, sp["at"])
        for s in ss:
            s.finish()
    else:
        sc = sched.Sched(len(ss), sp, world.package_dir())
        ready = []
        for s in ss:
            try:
                s.prepare()
                s.w.point = sc.point
            except BaseException as e:
                s.failed(e)
            ready.append(s)

        def body(k, s):
            if s.line is not None:
                def lf(n, code):
                    if n == s.line["n"]:
                        s.w.fired.append("line." + s.line["kind"])
                        s.strike = code.co_name
                        raise {"kbd": KeyboardInterrupt, "mem": MemoryError}[s.line["kind"]]("injected")
                sc.line_faults[k] = lf

            def fn(sc):
                if s.status == "exc":
                    return
                try:
                    for _ in s.steps():
                        pass
                except BaseException as e:
                    s.failed(e)
            return fn

        sc.run([body(k, s) for k, s in enumerate(ready)], sp.get("start", 0))
        for s in ss:
            s.finish()
        out["sched"] = sc.trace
        out["steps"] = sc.steps
        out["deadlock"] = sc.deadlock
    out["results"] = [s.result() for s in ss]
    return out
