"""Seeded cooperative scheduler over real threads.

One thread runs at a time; control moves only at scheduling points (executed
lines or bytecodes of the package, transfers of simulated streams, contended
locks) and only where the planned gap list says so.
"""
import os
import sys
import threading
import _thread

_real_lock = _thread.allocate_lock
ACTIVE = None


class Deadlock(Exception):
    pass


class Sched:
    def __init__(self, n, spec, prefix):
        self.n = n
        self.gaps = [tuple(g) for g in spec.get("gaps", [])]
        self.cycle = bool(spec.get("cycle"))
        self.opcodes = spec.get("gran") == "opcode"
        self.max_switch = spec.get("max", 400)
        self.prefix = prefix
        self.gates = [_real_lock() for _ in range(n)]
        for g in self.gates:
            g.acquire()
        self.main = _real_lock()
        self.main.acquire()
        self.alive = list(range(n))
        self.blocked = set()
        self.cur = None
        self.steps = 0
        self.gi = 0
        self.next_at = self.gaps[0][0] if self.gaps else None
        self.trace = []            # (step, from, to, where)
        self.deadlock = False
        self.line_faults = [None] * n
        self.line_counts = [0] * n
        # switching when code runs that did not run before reaches rarely
        # executed places that switching at random instants hardly ever does
        self.fresh = spec.get("fresh")
        self.fresh_each = spec.get("fresh_each")
        self.seen = set()
        self.nfresh = 0

    # ---- scheduling
    def _pick(self, want):
        run = [t for t in self.alive if t not in self.blocked]
        if not run:
            return None
        return run[want % len(run)]

    def _go(self, to, where):
        me = self.cur
        if to == me:
            return
        self.trace.append((self.steps, me, to, where))
        self.cur = to
        self.gates[to].release()
        self.gates[me].acquire()

    def point(self, where):
        self.steps += 1
        if self.fresh and type(where) is tuple:
            key = (self.cur, where) if self.fresh_each else where
            if key not in self.seen:
                self.seen.add(key)
                want = self.fresh[self.nfresh % len(self.fresh)]
                self.nfresh += 1
                if want >= 0 and len(self.trace) < self.max_switch:
                    to = self._pick(want)
                    if to is not None:
                        self._go(to, where)
                    return
        if self.next_at is None or self.steps < self.next_at:
            return
        want = self.gaps[self.gi][1]
        self.gi += 1
        if self.gi >= len(self.gaps):
            self.gi = 0
            if not self.cycle or len(self.trace) >= self.max_switch:
                self.next_at = None
        if self.next_at is not None:
            self.next_at = self.steps + self.gaps[self.gi][0]
        to = self._pick(want)
        if to is not None:
            self._go(to, where)

    def block(self, lock):
        """Current thread cannot take `lock`."""
        me = self.cur
        self.blocked.add(me)
        to = self._pick(0)
        if to is None:
            self.blocked.discard(me)
            self.deadlock = True
            raise Deadlock("all threads wait")
        lock.waiters.append(me)
        self._go(to, "lock")
        if self.deadlock:
            raise Deadlock("all threads wait")

    def unblock(self, tids):
        for t in tids:
            self.blocked.discard(t)

    # ---- threads
    def _body(self, tid, fn):
        self.gates[tid].acquire()
        try:
            fn(self)
        finally:
            self.alive.remove(tid)
            to = self._pick(tid)
            if to is None and self.alive:
                self.deadlock = True
                self.blocked.clear()
                to = self.alive[0]
            if to is None:
                self.main.release()
            else:
                self.trace.append((self.steps, tid, to, "end"))
                self.cur = to
                self.gates[to].release()

    TOOL = 4

    def _instrument(self):
        """One process-wide instrumentation for all threads (3.12 monitoring):
        every executed line (or bytecode) of the package is a point."""
        mon = sys.monitoring
        prefix = self.prefix
        mine = {}
        point = self.point
        faults = self.line_faults
        counts = self.line_counts

        def known(code):
            v = mine[code] = code.co_filename.startswith(prefix)
            return v

        def on_line(code, line):
            if not (mine[code] if code in mine else known(code)):
                return mon.DISABLE
            cur = self.cur
            if cur is None:
                return None
            n = counts[cur] = counts[cur] + 1
            f = faults[cur]
            if f is not None:
                f(n, code)
            if not self.opcodes:
                point((code.co_name, line))

        def on_instr(code, offset):
            if not (mine[code] if code in mine else known(code)):
                return mon.DISABLE
            if self.cur is not None:
                point((code.co_name, offset))

        mon.use_tool_id(self.TOOL, "dst")
        ev = mon.events.LINE
        mon.register_callback(self.TOOL, mon.events.LINE, on_line)
        if self.opcodes:
            mon.register_callback(self.TOOL, mon.events.INSTRUCTION, on_instr)
            ev = ev | mon.events.INSTRUCTION
        mon.set_events(self.TOOL, ev)

    def _uninstrument(self):
        sys.monitoring.set_events(self.TOOL, 0)
        sys.monitoring.free_tool_id(self.TOOL)

    def run(self, fns, start=0):
        global ACTIVE
        ACTIVE = self
        th = [threading.Thread(target=self._body, args=(i, f), daemon=True)
              for i, f in enumerate(fns)]
        for t in th:
            t.start()
        self._instrument()
        self.cur = start % self.n
        self.gates[self.cur].release()
        self.main.acquire()
        self.cur = None
        self._uninstrument()
        ACTIVE = None
        for t in th:
            t.join()


class SimLock:
    """Stands in for threading.Lock/RLock in the code under test."""

    def __init__(self, reentrant=False):
        self.owner = None
        self.depth = 0
        self.reentrant = reentrant
        self.waiters = []
        self._real = _thread.RLock() if reentrant else _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE
        if s is None or s.cur is None:
            return self._real.acquire(blocking, timeout)
        me = s.cur
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking or timeout >= 0:
                return False
            s.block(self)
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        s = ACTIVE
        if s is None or s.cur is None:
            return self._real.release()
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
            w, self.waiters = self.waiters, []
            s.unblock(w)

    def locked(self):
        return self.owner is not None or (not self.reentrant and self._real.locked())

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


def patch_locks():
    """Before the package is imported: locks it creates become schedulable."""
    threading.Lock = lambda: SimLock()
    threading.RLock = lambda: SimLock(True)
