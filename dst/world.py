"""The simulated world: streams whose every transfer is decided by a plan.

A `World` owns the fault list of one simulated run and counts every transfer.
`SimRaw` is the seam: a raw stream placed underneath the *real* Python
io stack (BufferedReader/BufferedWriter/TextIOWrapper) or handed directly to
the code under test.
"""
import errno
import io
import os
import sys

CRASH_STATUS = 77


class Fault(dict):
    pass


class World:
    def __init__(self, faults=()):
        self.faults = [dict(f) for f in faults]
        for f in self.faults:
            f["left"] = 1
        self.count = {}
        self.fired = []          # fault descriptions, in order
        self.log = []            # event log (for determinism comparison)
        self.point = None        # scheduling hook
        self.line_point = None   # scheduling hook of executed lines
        self.crash = None        # callable ending the simulated process

    def step(self, role, op, size=None):
        """One transfer is about to happen. Returns an applicable fault."""
        if self.point is not None:
            self.point(role + "." + op)
        key = (role, op)
        n = self.count[key] = self.count.get(key, 0) + 1
        self.log.append((role, op, n, size))
        for f in self.faults:
            if f.get("at") == role and f.get("op") == op:
                if n == f["n"] and f["left"]:
                    f["left"] = 0
                    return f
                if f.get("sticky") and n > f["n"]:
                    return f
        return None

    def fire(self, f, what=None):
        self.fired.append(what or "%s.%s.%s" % (f.get("at"), f.get("op"), f.get("kind")))
        self.log.append(("FAULT", self.fired[-1]))

    def act(self, f):
        """Apply a fault that raises or kills."""
        k = f["kind"]
        if k == "err":
            self.fire(f, "%s.%s.%s" % (f["at"], f["op"], f["errno"]))
            e = getattr(errno, f["errno"])
            raise OSError(e, os.strerror(e) + " (injected)")
        if k == "kbd":
            self.fire(f)
            raise KeyboardInterrupt("injected")
        if k == "mem":
            self.fire(f)
            raise MemoryError("injected")
        if k == "crash":
            self.fire(f)
            self.crash()

    def cap(self, role):
        for f in self.faults:
            if f.get("at") == role and f.get("op") == "cap":
                return f
        return None


def fifo(mode):
    """Descriptor of a real pipe, for code asking what kind of stream it has
    got; nothing ever comes through it."""
    r, w = os.pipe()
    if mode == "r":
        os.close(w)
        return r
    return w


class SimRaw(io.RawIOBase):
    """Raw stream.  Backed by memory (`data`/`sink`) or a real descriptor."""

    def __init__(self, world, role, mode, data=None, chunks=None, fd=None, name=None):
        self._w = world
        self._role = role
        self._mode = mode
        self._data = data
        self._pos = 0
        self._chunks = chunks or None
        self._nchunk = 0
        self._fd = fd
        self.sink = bytearray()
        self.total = 0
        self.alias = None        # descriptor shown to code asking for one
        self.bare = False        # handed directly to the code under test
        if name is not None:
            self.name = name
        self.mode = "rb" if mode == "r" else "wb"

    # -- capabilities
    def readable(self):
        return self._mode == "r"

    def writable(self):
        return self._mode != "r"

    def seekable(self):
        return self._fd is not None and self._role not in ("stdin", "stdout")

    def isatty(self):
        return False

    def fileno(self):
        if self.alias is not None:
            return self.alias
        if self._fd is not None:
            return self._fd
        raise io.UnsupportedOperation("fileno")

    def _limit(self, n):
        if self._chunks:
            c = self._chunks[self._nchunk % len(self._chunks)]
            self._nchunk += 1
            if self._nchunk > 1500:
                c *= 64   # long files: keep the number of transfers bounded
            if c and c < n:
                self._w.fired.append(self._role + ".short")
                return c
        return n

    # -- transfers
    def readinto(self, b):
        f = self._w.step(self._role, "read", len(b))
        if f is not None:
            if f["kind"] == "again":
                self._w.fire(f)
                return None     # non-blocking, nothing there yet
            self._w.act(f)
        n = self._limit(len(b))
        if self._fd is not None:
            d = os.read(self._fd, n)
        else:
            d = self._data[self._pos:self._pos + n]
            self._pos += len(d)
        b[:len(d)] = d
        self._w.log.append(("got", len(d)))
        return len(d)

    def write(self, b):
        b = bytes(b)
        f = self._w.step(self._role, "write", len(b))
        n = len(b)
        if f is not None:
            if f["kind"] == "again":
                self._w.fire(f)
                return None     # non-blocking, no room yet
            if f["kind"] == "short":
                if n > 1:
                    n = max(1, min(n - 1, f.get("keep", 1)))
                    self._w.fire(f)
            else:
                if f.get("keep") and n > 1 and (f["kind"] == "crash" or f["kind"] == "kbd" and self.bare):
                    # part of the transfer had happened
                    self._put(b[:min(n - 1, f["keep"])])
                self._w.act(f)
        n = min(n, max(1, self._limit(n))) if n else 0
        c = self._w.cap(self._role)
        if c is not None:
            room = c["n"] - self.total
            if n > room:
                if room <= 0:
                    self._w.fire(c, self._role + ".full." + c["errno"])
                    e = getattr(errno, c["errno"])
                    raise OSError(e, os.strerror(e) + " (injected)")
                n = room
                self._w.fire(c, self._role + ".short")
        self._put(b[:n])
        return n

    def _put(self, d):
        self.total += len(d)
        if self._fd is not None:
            while d:
                d = d[os.write(self._fd, d):]
        else:
            self.sink += d

    def seek(self, off, whence=0):
        if self._fd is None or not self.seekable():
            raise io.UnsupportedOperation("seek")
        return os.lseek(self._fd, off, whence)

    def truncate(self, size=None):
        if self._fd is None:
            raise io.UnsupportedOperation("truncate")
        if size is None:
            size = os.lseek(self._fd, 0, 1)
        os.ftruncate(self._fd, size)
        return size

    def close(self):
        if not self.closed:
            super().close()
            if self._fd is not None:
                os.close(self._fd)
                f = self._w.step(self._role, "close")
                if f is not None:
                    self._w.act(f)


class ObjSink:
    """Minimal user supplied sink: not an io object, accepting everything."""

    def __init__(self, raw, text):
        self._raw = raw
        self._text = text

    def write(self, d):
        blob = d.encode("utf-8") if self._text else bytes(d)
        f = self._raw._w.step(self._raw._role, "write", len(blob))
        if f is not None and f["kind"] != "short":
            self._raw._w.act(f)
        c = self._raw._w.cap(self._raw._role)
        if c is not None and self._raw.total + len(blob) > c["n"]:
            self._raw._w.fire(c, self._raw._role + ".full." + c["errno"])
            e = getattr(errno, c["errno"])
            raise OSError(e, os.strerror(e) + " (injected)")
        self._raw._put(blob)
        return len(d)

    def writelines(self, lines):
        for d in lines:
            self.write(d)

    def flush(self):
        pass


class ObjSource:
    """Minimal user supplied source, not an io object: read() returns everything."""

    def __init__(self, raw, text):
        self._raw = raw
        self._text = text

    def read(self, n=-1):
        w = self._raw._w
        f = w.step(self._raw._role, "read", n)
        if f is not None:
            w.act(f)
        if self._text:
            s = self._raw._data.decode("utf-8")
            d = s[self._raw._pos:] if n is None or n < 0 else s[self._raw._pos:self._raw._pos + n]
        else:
            s = self._raw._data
            d = s[self._raw._pos:] if n is None or n < 0 else s[self._raw._pos:self._raw._pos + n]
        self._raw._pos += len(d)
        return d

    def readline(self):
        s = self._raw._data.decode("utf-8") if self._text else self._raw._data
        end = s.find("\n" if self._text else b"\n", self._raw._pos)
        return self.read((len(s) if end < 0 else end + 1) - self._raw._pos)

    def readlines(self):
        return list(self)

    def __iter__(self):
        return iter(self.readline, "" if self._text else b"")


def make_source(world, role, data, spec, text):
    raw = SimRaw(world, role, "r", data=data, chunks=spec.get("chunks"))
    kind = spec["kind"]
    if kind == "obj":
        return raw, ObjSource(raw, text)
    if kind == "raw":
        return raw, raw
    buf = io.BufferedReader(raw, spec.get("bs", 8192))
    if kind == "buf":
        return raw, buf
    return raw, io.TextIOWrapper(buf, encoding="utf-8")


def make_sink(world, role, spec, text):
    raw = SimRaw(world, role, "w", chunks=spec.get("chunks"))
    kind = spec["kind"]
    if kind == "obj":
        return raw, ObjSink(raw, text)
    if kind == "raw":
        raw.bare = True
        return raw, raw
    buf = io.BufferedWriter(raw, spec.get("bs", 8192))
    if kind == "buf":
        return raw, buf
    return raw, io.TextIOWrapper(buf, encoding="utf-8", write_through=bool(spec.get("wt")),
                                 line_buffering=bool(spec.get("lb")))


# ------------------------------------------------------------- line interrupts

def package_dir():
    import hrdc
    return os.path.dirname(os.path.abspath(hrdc.__file__)) + os.sep


class LineTracer:
    """Counts executed lines of the package; strikes at the n-th."""

    def __init__(self, world, prefix, fault=None):
        self.w = world
        self.prefix = prefix
        self.n = 0
        self.fault = fault
        self.where = None
        self.locs = {}      # line of code -> some of the instants it ran

    def glob(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.prefix):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            f = self.fault
            if self.w.line_point is not None:
                self.w.line_point("line")
            if f is None:
                at = self.locs.setdefault((frame.f_code, frame.f_lineno), [])
                if len(at) < 16:
                    at.append(self.n)
                else:
                    at[8 + self.n % 8] = self.n
            if f is not None and self.n == f["n"]:
                self.where = "%s:%s" % (os.path.basename(frame.f_code.co_filename),
                                        frame.f_code.co_name)
                self.w.fired.append("line." + f["kind"])
                self.w.log.append(("STRIKE", self.where))
                if f["kind"] == "kbd":
                    raise KeyboardInterrupt("injected")
                if f["kind"] == "mem":
                    raise MemoryError("injected")
                if f["kind"] == "crash":
                    self.w.crash()
        return self.local

    def __enter__(self):
        sys.settrace(self.glob)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False
