"""Several simulated processes at once, in one directory, some connected by
pipes.  Every process is forked, but only one of them runs at any time: each
stops at its transfers (and, if asked, at every executed line of the package)
and goes on when the controller, following the schedule of the plan, says so.
Pipes are bounded buffers kept by the controller.
"""
import errno
import gc
import os
import pickle
import resource
import select
import signal
import socket
import struct
import time

from . import api, cli, engine, world

MAX_GRANTS = 400000


def _send(s, v):
    b = pickle.dumps(v, 4)
    s.sendall(struct.pack("<L", len(b)) + b)


def _exact(s, n):
    out = b""
    while len(out) < n:
        d = s.recv(n - len(out))
        if not d:
            return None
        out += d
    return out


def _recv(s):
    h = _exact(s, 4)
    if h is None:
        return None
    b = _exact(s, struct.unpack("<L", h)[0])
    return None if b is None else pickle.loads(b)


class Link:
    """The process' side: waits for its turn."""

    def __init__(self, sock):
        self.s = sock
        self.budget = 0

    def call(self, *msg):
        _send(self.s, msg)
        v = _recv(self.s)
        if v is None:
            os._exit(1)
        self.budget = v[1]
        return v[0]

    def point(self, _):
        self.budget -= 1
        if self.budget <= 0:
            self.call("point")

    def read(self, pipe, n):
        return self.call("read", pipe, n)

    def write(self, pipe, b):
        n = self.call("write", pipe, b)
        if n is None:
            raise BrokenPipeError(errno.EPIPE, os.strerror(errno.EPIPE))
        return n


class PipeEnd(world.SimRaw):
    """Standard stream connected to a pipe."""

    def __init__(self, w, role, mode, link, pipe, chunks, name):
        world.SimRaw.__init__(self, w, role, mode, data=b"", chunks=chunks, name=name)
        self._link = link
        self._pipe = pipe
        self.alias = world.fifo(mode)

    def readinto(self, b):
        f = self._w.step(self._role, "read", len(b))
        if f is not None:
            self._w.act(f)
        d = self._link.read(self._pipe, self._limit(len(b)))
        b[:len(d)] = d
        self._w.log.append(("got", len(d)))
        return len(d)

    def _put(self, d):
        while d:
            n = self._link.write(self._pipe, d)
            self.total += n
            d = d[n:]

    def close(self):
        if not self.closed:
            world.io.RawIOBase.close(self)


class Proc:
    def __init__(self, run, root):
        self.run = run
        self.sock, mine = socket.socketpair()
        self.rfd, wfd = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            status = 1
            try:
                self.sock.close()
                os.close(self.rfd)
                gc.disable()
                lim = engine.CPU_LIMIT
                resource.setrlimit(resource.RLIMIT_CPU, (lim, lim + 5))
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                if engine.OPTIMIZED:
                    api.without_asserts()
                status = self.live(run, root, mine, wfd)
            except BaseException:
                import traceback
                try:
                    self.tell(wfd, {"harness": traceback.format_exc()})
                except BaseException:
                    pass
                status = 99
            finally:
                os._exit(status)
        mine.close()
        os.close(wfd)
        self.pending = None     # request waiting for an answer
        self.dead = False
        self.how = None
        self.value = None

    @staticmethod
    def tell(wfd, v):
        b = pickle.dumps(v, 4)
        while b:
            b = b[os.write(wfd, b):]

    def live(self, run, root, mine, wfd):
        link = Link(mine)
        p = cli.Process(run, root)

        def crash():
            mine.close()
            self.tell(wfd, {"code": None, "exc": "crash", "fired": p.w.fired, "log": p.w.log,
                            "lines": 0, "strike": None, "stderr": ""})
        p.on_crash = crash
        p.link = link
        p.w.point = link.point
        p.w.line_point = link.point if run.get("gran") == "line" else None
        link.call("start")
        v = p.run()
        mine.close()
        self.tell(wfd, v)
        return 0

    def reap(self):
        """The process is gone."""
        self.dead = True
        buf = bytearray()
        while True:
            d = os.read(self.rfd, 1 << 20)
            if not d:
                break
            buf += d
        os.close(self.rfd)
        self.sock.close()
        _, st = os.waitpid(self.pid, 0)
        v = pickle.loads(bytes(buf)) if buf else None
        if v and "harness" in v:
            raise engine.HarnessError(v["harness"])
        if os.WIFSIGNALED(st):
            self.how = "hang" if os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL) else "dead"
            v = None
        else:
            self.how = {0: "ok", world.CRASH_STATUS: "crash"}.get(os.WEXITSTATUS(st), "dead")
        self.value = v or {"code": None, "exc": self.how, "fired": [], "log": [], "lines": 0,
                           "strike": None, "stderr": ""}


class Pipe:
    def __init__(self, capacity):
        self.buf = bytearray()
        self.capacity = capacity
        self.readers = 0
        self.writers = 0


def run_all(plan, runs, root):
    sp = plan["schedule"]
    pipes = {}
    procs = []
    for run in runs:
        engine.setup_dir(root, {run["stdin_name"]: run.get("stdin", "")})
        for side, n in (("readers", run.get("stdin_pipe")), ("writers", run.get("stdout_pipe"))):
            if n:
                p = pipes.setdefault(n, Pipe(sp.get("capacity", 65536)))
                setattr(p, side, getattr(p, side) + 1)
    trace = []
    gaps = sp.get("gaps") or [[1, 0]]
    out = {"sched": trace, "deadlock": False}
    try:
        for run in runs:
            procs.append(Proc(run, root))
        for p in procs:
            _await(p)

        def ready(p):
            if p.dead:
                return False
            m = p.pending
            if m[0] == "read":
                q = pipes[m[1]]
                return bool(q.buf or not q.writers)
            if m[0] == "write":
                q = pipes[m[1]]
                return not q.readers or len(q.buf) < q.capacity
            return True

        turn = 0
        g = 0
        cur = sp.get("start", 0) % len(procs)
        while any(not p.dead for p in procs):
            if turn >= MAX_GRANTS:
                out["deadlock"] = "no end"
                break
            can = [i for i, p in enumerate(procs) if ready(p)]
            if not can:
                out["deadlock"] = "all wait"
                break
            budget, who = gaps[g % len(gaps)] if sp.get("cycle") or g < len(gaps) else [10 ** 6, 0]
            g += 1
            if turn % 2000 == 1999:
                # long runs: keep the number of turns bounded
                for q in pipes.values():
                    q.capacity *= 2
            budget <<= turn // 2000
            cur = can[(who + cur) % len(can)]
            trace.append((cur, budget))
            turn += 1
            p = procs[cur]
            m = p.pending
            if m[0] == "read":
                q = pipes[m[1]]
                v = bytes(q.buf[:m[2]])
                del q.buf[:len(v)]
            elif m[0] == "write":
                q = pipes[m[1]]
                if not q.readers:
                    v = None
                else:
                    v = min(len(m[2]), q.capacity - len(q.buf))
                    q.buf += m[2][:v]
            else:
                v = True
            _send(p.sock, (v, budget))
            _await(p)
            if p.dead:
                for side, n in (("readers", p.run.get("stdin_pipe")), ("writers", p.run.get("stdout_pipe"))):
                    if n:
                        setattr(pipes[n], side, getattr(pipes[n], side) - 1)
    finally:
        for p in procs:
            if not p.dead:
                try:
                    os.kill(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.reap()
                if not out["deadlock"]:
                    p.how = "dead"
    files = engine.snapshot(root)
    out["runs"] = []
    for p in procs:
        v = dict(p.value, how=p.how)
        v["files"] = files
        out["runs"].append(v)
    out["steps"] = len(trace)
    return out


def _await(p):
    """Until the process stops at its next request or ends."""
    deadline = time.monotonic() + engine.WALL_LIMIT
    r, _, _ = select.select([p.sock], [], [], max(0, deadline - time.monotonic()))
    if not r:
        os.kill(p.pid, signal.SIGKILL)
        p.reap()
        return
    try:
        m = _recv(p.sock)
    except ConnectionResetError:
        m = None
    if m is None:
        p.reap()
    else:
        p.pending = m


def alone(run, files):
    """The command alone, in a directory of its own."""
    root = engine.fresh(files)
    try:
        return engine.run_process(run, root)
    finally:
        engine.shutil.rmtree(root, ignore_errors=True)


def execute(plan):
    files = dict(plan["files"])
    obs = {"base": [], "solo": []}
    resolved = []
    fed = {}         # pipe -> what goes through it without faults
    for run in plan["runs"]:
        clean = dict(run, faults=[])
        clean.pop("gran", None)
        clean["count_lines"] = any(f.get("op") == "line" for f in run["faults"])
        pipe = run.get("stdin_pipe")
        if pipe:
            clean["stdin"] = fed.get(pipe, b"").hex()
        b = alone(clean, files)
        obs["base"].append(b)
        if run.get("stdout_pipe"):
            fed[run["stdout_pipe"]] = b["files"].get(run["stdout_name"]) or b""
        sizes = {role: len(b["files"].get(n) or b"") for n, role in run["roles"].items()}
        sizes["stdout"] = len(b["files"].get(run["stdout_name"]) or b"")
        f = engine.resolve(run["faults"], engine.counts(b["log"]), b["lines"], sizes, b.get("locs"))
        resolved.append(dict(run, faults=f))
        if not f:
            obs["solo"].append(b)
        elif pipe or run.get("stdout_pipe"):
            obs["solo"].append(None)
        else:
            clean = dict(run, faults=f)
            clean.pop("gran", None)
            obs["solo"].append(alone(clean, files))
    root = engine.fresh(files)
    try:
        obs["before"] = engine.snapshot(root)
        obs.update(run_all(plan, resolved, root))
    finally:
        engine.shutil.rmtree(root, ignore_errors=True)
    obs["resolved"] = resolved
    return obs
