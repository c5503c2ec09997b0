"""Runs a command line tool of the package as a simulated process.

Executed in a fresh forked process.  Everything above the raw file layer is
real: argparse, builtins.open's io stack, the interpreter's notion of exit
status.  Files live in a scratch directory; raw transfers on files below it
and on the standard streams go through SimRaw.
"""
import builtins
import io
import os
import runpy
import sys
import tempfile
import warnings

from . import hbuild, world

MODULES = {"convert": "hrdc.converter", "decompile": "hrdc.descriptor.extractor"}


class Process:
    def __init__(self, run, root):
        self.run_spec = run
        self.root = os.path.abspath(root) + os.sep
        self.w = world.World(run.get("faults", ()))
        self.w.crash = self.crash
        self.opened = []
        self.line = None
        self.on_crash = None
        self.link = None
        for f in run.get("faults", ()):
            if f.get("op") == "line":
                self.line = f

    def crash(self):
        if self.on_crash:
            self.on_crash()
        os._exit(world.CRASH_STATUS)

    # ---- file layer
    def role(self, path):
        return self.run_spec.get("roles", {}).get(os.path.basename(path), "file")

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        if isinstance(file, int) or opener is not None:
            return self.real_open(file, mode, buffering, encoding, errors, newline,
                                  closefd, opener)
        path = os.path.abspath(os.fspath(file))
        if isinstance(path, bytes) or not path.startswith(self.root):
            return self.real_open(file, mode, buffering, encoding, errors, newline,
                                  closefd, opener)
        role = self.role(path)
        f = self.w.step(role, "open")
        if f is not None:
            self.w.act(f)
        base = mode.replace("b", "").replace("t", "").replace("U", "")
        plus = "+" in base
        kind = base.replace("+", "")
        flags = {"r": os.O_RDONLY, "w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
                 "a": os.O_WRONLY | os.O_CREAT | os.O_APPEND,
                 "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL}[kind or "r"]
        if plus:
            return self.real_open(file, mode, buffering, encoding, errors, newline,
                                  closefd, opener)
        fd = os.open(path, flags | os.O_CLOEXEC, 0o666)
        raw = world.SimRaw(self.w, role, "r" if kind == "r" else "w", fd=fd,
                           chunks=self.run_spec.get("chunks", {}).get(role), name=file)
        if "b" in mode and buffering == 0:
            top = raw
        else:
            bs = self.run_spec.get("bs") or 8192
            buf = io.BufferedReader(raw, bs) if kind == "r" else io.BufferedWriter(raw, bs)
            top = buf
            if "b" not in mode:
                top = io.TextIOWrapper(buf, encoding=encoding or "utf-8", errors=errors,
                                       newline=newline, line_buffering=buffering == 1)
                top.mode = mode
        self.opened.append(top)
        return top

    def std(self):
        r = self.run_spec
        ch = r.get("chunks", {})
        if self.link is not None and r.get("stdin_pipe"):
            from . import multi
            raw = multi.PipeEnd(self.w, "stdin", "r", self.link, r["stdin_pipe"], ch.get("stdin"), "<stdin>")
        else:
            fd = os.open(self.root + r.get("stdin_name", "stdin"), os.O_RDONLY)
            raw = world.SimRaw(self.w, "stdin", "r", fd=fd, chunks=ch.get("stdin"), name="<stdin>")
            if r.get("piped"):
                raw.alias = world.fifo("r")
        sys.stdin = io.TextIOWrapper(io.BufferedReader(raw, r.get("bs") or 8192), encoding="utf-8")
        if self.link is not None and r.get("stdout_pipe"):
            from . import multi
            raw = multi.PipeEnd(self.w, "stdout", "w", self.link, r["stdout_pipe"], ch.get("stdout"), "<stdout>")
        else:
            fd = os.open(self.root + r.get("stdout_name", "stdout"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            raw = world.SimRaw(self.w, "stdout", "w", fd=fd, chunks=ch.get("stdout"), name="<stdout>")
            if r.get("piped"):
                raw.alias = world.fifo("w")
        if r.get("unbuf"):
            sys.stdout = io.TextIOWrapper(raw, encoding="utf-8", write_through=True)
        else:
            sys.stdout = io.TextIOWrapper(io.BufferedWriter(raw, r.get("bs") or 8192),
                                          encoding="utf-8")
        self.stderr = sys.stderr = io.StringIO()
        sys.__stdin__, sys.__stdout__, sys.__stderr__ = sys.stdin, sys.stdout, sys.stderr

    # ---- life of the process
    def main(self):
        r = self.run_spec
        if r["tool"] == "script":
            # a decompiled source
            runpy.run_path(os.path.join(self.root, r["script"]), run_name="__main__")
            return
        if r["tool"] == "compile":
            if r.get("script"):
                path = os.path.join(self.root, r.get("desc_name", "desc.py"))
                with self.real_open(path, "w") as f:
                    f.write(hbuild.script(r["tree"]))
                runpy.run_path(path, run_name="__main__")
                return
            from hrdc.descriptor import compile_main
            desc = hbuild.build(r["tree"])
            compile_main(desc)
        else:
            runpy.run_module(MODULES[r["tool"]], run_name="__main__")

    def run(self):
        r = self.run_spec
        warnings.simplefilter("ignore")
        os.chdir(self.root)
        # places for temporary and per-user files of their own
        os.environ["HOME"] = os.environ["TMPDIR"] = self.root
        for k in list(os.environ):
            if k.startswith("XDG_"):
                del os.environ[k]
        tempfile.tempdir = None
        sys.argv = [r["tool"]] + [a.replace("@", self.root) for a in r["argv"]]
        self.real_open = builtins.open
        self.std()
        builtins.open = io.open = self.open
        code = 0
        exc = None
        tracer = None
        try:
            if self.line is not None or r.get("count_lines") or self.w.line_point:
                tracer = world.LineTracer(self.w, world.package_dir(), self.line)
                with tracer:
                    self.main()
            else:
                self.main()
        except SystemExit as e:
            sys.settrace(None)
            c = e.code
            exc = "SystemExit"
            code = 0 if c is None else (c & 0xff if isinstance(c, int) else 1)
        except KeyboardInterrupt:
            sys.settrace(None)
            exc, code = "KeyboardInterrupt", 130
        except BaseException as e:
            sys.settrace(None)
            exc, code = (type(e).__name__ + ": " + str(e)).replace(self.root, "@")[:120], 1
        # interpreter shutdown: standard output is flushed and a failure shows
        # in the status; other files are closed, failures are ignored
        try:
            if not sys.stdout.closed:
                sys.stdout.flush()
        except BaseException:
            code = code or 120
        for f in self.opened:
            try:
                f.close()
            except BaseException:
                pass
        return {"code": code, "exc": exc, "fired": self.w.fired, "log": self.w.log,
                "lines": tracer.n if tracer else 0,
                "locs": list(tracer.locs.values()) if tracer else None, "strike": tracer.where if tracer else None,
                "stderr": self.stderr.getvalue()[-300:]}
