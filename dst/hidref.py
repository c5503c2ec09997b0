"""Reference model of the HID report-descriptor world.

Independent of hrdc (no import from it): an item codec, tokenizers for the
three textual/binary encodings, and a small "host" that interprets an item
sequence into what a HID host would see (collections and report fields).
"""

# (kind, tag) -> (name, signed)
ITEMS = {
    (0, 0x8): ("Input", False),
    (0, 0x9): ("Output", False),
    (0, 0xb): ("Feature", False),
    (0, 0xa): ("Collection", False),
    (0, 0xc): ("EndCollection", False),
    (1, 0x0): ("UsagePage", False),
    (1, 0x1): ("LogicalMinimum", True),
    (1, 0x2): ("LogicalMaximum", True),
    (1, 0x3): ("PhysicalMinimum", True),
    (1, 0x4): ("PhysicalMaximum", True),
    (1, 0x5): ("UnitExponent", True),
    (1, 0x6): ("Unit", False),
    (1, 0x7): ("ReportSize", False),
    (1, 0x8): ("ReportID", False),
    (1, 0x9): ("ReportCount", False),
    (1, 0xa): ("Push", False),
    (1, 0xb): ("Pop", False),
    (2, 0x0): ("Usage", False),
    (2, 0x1): ("UsageMinimum", False),
    (2, 0x2): ("UsageMaximum", False),
    (2, 0x3): ("DesignatorIndex", False),
    (2, 0x4): ("DesignatorMinimum", False),
    (2, 0x5): ("DesignatorMaximum", False),
    (2, 0x7): ("StringIndex", False),
    (2, 0x8): ("StringMinimum", False),
    (2, 0x9): ("StringMaximum", False),
    (2, 0xa): ("Delimiter", False),
}
BY_NAME = {n: (k, t, s) for (k, t), (n, s) in ITEMS.items()}
DATA = ("Input", "Output", "Feature")
NO_PAYLOAD = ("EndCollection", "Push", "Pop")


class Torn(Exception):
    """Input ends inside an item."""


class Invalid(Exception):
    """Input is not a sequence of items this tool knows."""


# ---------------------------------------------------------------- item codec

def minimal_size(name, value):
    """Smallest payload size code (0..3) able to hold value."""
    signed = BY_NAME[name][2]
    if name in NO_PAYLOAD:
        return 0
    for code, nbytes in ((1, 1), (2, 2), (3, 4)):
        if signed:
            lo, hi = -(1 << (8 * nbytes - 1)), (1 << (8 * nbytes - 1)) - 1
        else:
            lo, hi = 0, (1 << (8 * nbytes)) - 1
        if lo <= value <= hi:
            return code
    raise ValueError((name, value))


def encode_item(name, value, size=None):
    kind, tag, _signed = BY_NAME[name]
    if size is None:
        size = minimal_size(name, value)
    nbytes = (0, 1, 2, 4)[size]
    return bytes([(tag << 4) | (kind << 2) | size]) + \
        (value & ((1 << (8 * nbytes)) - 1)).to_bytes(nbytes, "little")


def encode(items):
    return b"".join(encode_item(*i) for i in items)


def decode(blob, partial=False):
    """bytes -> list of (name, value, payload size code).

    Raises Torn / Invalid; exception attribute `.items` has the good prefix.
    """
    out = []
    pos = 0
    while pos < len(blob):
        h = blob[pos]
        size = h & 3
        nbytes = (0, 1, 2, 4)[size]
        key = ((h >> 2) & 3, h >> 4)
        raw = blob[pos + 1:pos + 1 + nbytes]
        err = None
        if len(raw) < nbytes:
            err = Torn("item at %d" % pos)
        elif key not in ITEMS:
            err = Invalid("tag %r at %d" % (key, pos))
        else:
            name, signed = ITEMS[key]
            value = int.from_bytes(raw, "little", signed=signed and nbytes > 0)
            if name in NO_PAYLOAD and value:
                err = Invalid("payload on %s at %d" % (name, pos))
        if err:
            err.items = out
            if partial:
                return out
            raise err
        out.append((name, value, size))
        pos += 1 + nbytes
    return out


def nv(items):
    return [(i[0], i[1]) for i in items]


# ------------------------------------------------------------ text encodings

_HEX = "0123456789abcdefABCDEF"


def _word(c):
    return c.isalnum() or c == "_"


def tokens_hex(text):
    """Two-digit hex tokens (optionally 0x-prefixed) delimited by non-word
    characters; everything else is decoration."""
    out = []
    i = 0
    n = len(text)
    while i < n:
        if not _word(text[i]):
            i += 1
            continue
        j = i
        while j < n and _word(text[j]):
            j += 1
        w = text[i:j]
        if len(w) == 4 and w[:2] == "0x":
            w = w[2:]
        if len(w) == 2 and all(c in _HEX for c in w):
            out.append(int(w, 16))
        i = j
    return bytes(out)


def tokens_code(text):
    """C array body: comma separated hex numbers, // and /* */ comments."""
    t = []
    i = 0
    while i < len(text):
        two = text[i:i + 2]
        if two == "//":
            i = text.find("\n", i)
            if i < 0:
                break
        elif two == "/*" and text.find("*/", i + 2) >= 0:
            i = text.find("*/", i + 2) + 2
        else:
            t.append(text[i])
            i += 1
    t = "".join("".join(t).split())
    out = []
    for x in t.split(","):
        if x:
            try:
                v = int(x, 16)
                if not 0 <= v <= 255:
                    raise ValueError(x)
            except ValueError:
                e = Invalid("token %r" % x)
                e.items = []
                raise e
            out.append(v)
    return bytes(out)


def to_bytes(fmt, payload):
    """payload: bytes of the file -> descriptor bytes."""
    if fmt == "binary":
        return payload
    text = payload.decode("utf-8")
    return tokens_hex(text) if fmt == "hex" else tokens_code(text)


# ------------------------------------------------------------------ the host

class HostError(Exception):
    pass


_G0 = dict(UsagePage=0, LogicalMinimum=0, LogicalMaximum=0, PhysicalMinimum=0,
           PhysicalMaximum=0, UnitExponent=0, Unit=0, ReportSize=0,
           ReportID=0, ReportCount=0)


def interpret(items, convention="declared", on_main=None):
    """items: [(name, value, size?)...] -> list of events a host derives.

    convention: which usage page a short usage belongs to.
      "declared": the page in force where the usage is declared
      "main":     the page in force at the main item
    Well-formed (unambiguous) descriptors mean the same under both.

    Events:
      ("open", kind, usages, designators, strings)
      ("field", way, report id, bit offset, bit size, flags, usage,
                lmin, lmax, pmin, pmax, unit, exponent, designator, string,
                extra)
      ("close",)
    """
    g = dict(_G0)
    stack = []
    usages, designators, strings = [], [], []
    rng = {}
    offset = {}
    depth = 0
    ev = []

    def full(page_at, v, size, page_now):
        if size == 3:
            return v
        return ((page_at if convention == "declared" else page_now) << 16) | v

    def expand(seq, page_now=None):
        out = []
        for s in seq:
            if s[0] == "delim":
                out.append("delimiter %d" % s[1])
            elif s[0] == "one":
                out.append(full(s[1], s[2], s[3], page_now) if page_now is not None else s[2])
            else:
                if page_now is not None:
                    lo = full(s[1], s[2], s[3], page_now)
                    hi = full(s[4], s[5], s[6], page_now)
                    # a short bound takes the page of an extended partner
                    if s[3] == 3 and s[6] != 3:
                        hi = (lo & ~0xffff) | s[5]
                    if s[6] == 3 and s[3] != 3:
                        lo = (hi & ~0xffff) | s[2]
                else:
                    lo, hi = s[2], s[5]
                if hi < lo:
                    raise HostError("inverted range")
                if hi - lo > 70000:
                    raise HostError("range too large")
                out.extend(range(lo, hi + 1))
        return tuple(out)

    for it in items:
        name, value = it[0], it[1]
        size = it[2] if len(it) > 2 else minimal_size(name, value)
        kind = BY_NAME[name][0]
        if kind == 1:
            if name == "Push":
                stack.append(dict(g))
            elif name == "Pop":
                if not stack:
                    raise HostError("pop")
                g = stack.pop()
            else:
                g[name] = value
            continue
        if kind == 2:
            page = g["UsagePage"]
            if name == "Usage":
                usages.append(("one", page, value, size))
            elif name == "DesignatorIndex":
                designators.append(("one", 0, value, 1))
            elif name == "StringIndex":
                strings.append(("one", 0, value, 1))
            elif name == "Delimiter":
                usages.append(("delim", value))
            else:
                base, which = name[:-7], name[-7:]
                rng[(base, which)] = (page, value, size)
                lo, hi = rng.get((base, "Minimum")), rng.get((base, "Maximum"))
                if lo is not None and hi is not None:
                    dst = {"Usage": usages, "Designator": designators,
                           "String": strings}[base]
                    dst.append(("range",) + lo + hi)
                    del rng[(base, "Minimum")], rng[(base, "Maximum")]
            continue
        # main item
        if rng:
            raise HostError("half range")
        u = expand(usages, g["UsagePage"])
        d = expand(designators)
        s = expand(strings)
        usages, designators, strings = [], [], []
        if not any(d):
            d = ()  # index 0: no designator
        if on_main:
            on_main(name, value, g, u, d, s)
        if name == "Collection":
            depth += 1
            ev.append(("open", value, u, d, s))
        elif name == "EndCollection":
            depth -= 1
            if depth < 0:
                raise HostError("unbalanced")
            ev.append(("close",))
        else:
            key = (name, g["ReportID"])
            off = offset.get(key, 0)
            n, bits = g["ReportCount"], g["ReportSize"]
            if n > 4096:
                raise HostError("count too large")
            pmin, pmax = g["PhysicalMinimum"], g["PhysicalMaximum"]
            if pmin == 0 and pmax == 0:
                pmin, pmax = g["LogicalMinimum"], g["LogicalMaximum"]
            common = (g["LogicalMinimum"], g["LogicalMaximum"], pmin, pmax,
                      g["Unit"], g["UnitExponent"])
            if value & 1:  # constant: padding
                for k in range(n):
                    ev.append(("pad", name, g["ReportID"], off, bits, value))
                    off += bits
            elif not value & 2 or any(isinstance(x, str) for x in u):  # array: every slot selects among all usages
                for k in range(n):
                    ev.append(("field", name, g["ReportID"], off, bits, value, u)
                              + common + (d, s, ()))
                    off += bits
            else:
                def pick(seq, k):
                    return seq[min(k, len(seq) - 1)] if seq else None
                for k in range(n):
                    last = k == n - 1
                    rest = d[n:] if any(d[n:]) else ()
                    extra = (u[n:], rest, s[n:]) if last else ((), (), ())
                    ev.append(("field", name, g["ReportID"], off, bits, value,
                               pick(u, k)) + common +
                              (pick(d, k) or None, pick(s, k), extra))
                    off += bits
            offset[key] = off
    return ev


def meaning(items):
    """Meaning under both usage-page conventions (equal when unambiguous)."""
    return interpret(items, "declared"), interpret(items, "main")


# ------------------------------------------- what the language can express

class Outside(Exception):
    """Descriptor outside the description language."""


# usages of named arrays in the usage tables
NARY = frozenset([
    0x50032, 0x8004e, 0xb0006, 0xb0007, 0xc0002, 0xc0003, 0xc0036, 0xc0080, 0xc0087, 0xc00ba,
    0xc00f1, 0xc0180, 0xc0200, 0xf0025, 0xf0059, 0xf0078, 0xf008b, 0xf0096, 0x200201, 0x200202,
    0x200309, 0x200316, 0x200319, 0x20040a, 0x20040b, 0x20040d] + list(range(0x200810, 0x200821)))


def expressible(items):
    """Raises Outside unless the descriptor language has words for all of it."""
    stack = []
    ids = set()

    def need(cond, why):
        if not cond:
            raise Outside(why)

    def main(name, flags, g, u, d, s):
        need(not any(isinstance(x, str) for x in u), "delimiters")
        if name == "Collection":
            need(len(u) == 1 and not d and not s and u[0] >> 16, "collection locals")
            if stack:
                need(not stack[-1][3], "named array with company")
                stack[-1][2] += 1
            stack.append([flags, u[0], 0, False])
            return
        if name == "EndCollection":
            if stack:
                stack.pop()
            return
        need(stack, "data outside a collection")
        top = stack[-1]
        need(not top[3], "named array with company")
        top[2] += 1
        n, size = g["ReportCount"], g["ReportSize"]
        need(n > 0 and size > 0, "empty data")
        ids.add(bool(g["ReportID"]))
        need(len(ids) == 1, "reports with and without ID")
        if flags & 1:
            return
        need(flags <= 0x1ff, "unknown flags")
        need(all(x >> 16 for x in u), "usage without a page")
        span = g["LogicalMaximum"] - g["LogicalMinimum"] + 1
        pair = g["PhysicalMinimum"], g["PhysicalMaximum"]
        plain = (pair in ((0, 0), (g["LogicalMinimum"], g["LogicalMaximum"]))
                 and not g["Unit"] and not g["UnitExponent"])
        few = len(d) <= 1 and len(s) <= 1
        # (the tools state several fields with one usage each one by one)
        if (top[2] == 1 and (len(u) == span or u and span == 1)
                and (top[0] == 4 or top[0] == 2 and top[1] in NARY)):
            need(n == 1 and len(u) == span and top[0] == 2 and flags == 2 and plain and few,
                 "named array of another form")
            top[3] = True
        elif not flags & 2:
            if not flags and len(u) == span:
                need(plain and few, "array with extras")
            else:
                need(len(u) <= 1 and few, "array with part of its usages")

    try:
        a = interpret(items, "declared", main)
        b = interpret(items, "main")
    except HostError as e:
        raise Outside(str(e))
    need(a == b, "ambiguous usage page")
    need(a and not stack, "no collection")


def essence(items):
    """Meaning without what the language has no words for: how padding is
    split, surplus usages, an explicit index 0."""
    events = interpret(items)
    # number of things directly inside each collection, by index of its opening
    inside, stack = {}, []
    for k, e in enumerate(events):
        if e[0] == "close":
            stack.pop()
            continue
        if stack:
            inside[stack[-1]] = inside.get(stack[-1], 0) + 1
        if e[0] == "open":
            stack.append(k)
    out = []
    total = {}
    for k, e in enumerate(events):
        if e[0] == "open":
            stack.append(k)
        elif e[0] == "close":
            stack.pop()
        else:
            total[e[1:3]] = max(total.get(e[1:3], 0), e[3] + e[4])
            if e[0] == "pad":
                continue
            top = events[stack[-1]] if stack else None
            e = list(e)
            # the names of a named array
            named = (top and top[1] == 2 and top[2] and top[2][0] in NARY and inside[stack[-1]] == 1
                     and e[-1] and len(e[-1][0]) == e[8] - e[7])
            e[-1] = e[-1][0] if named else ()
            for j in (-2, -3):
                if not e[j] or isinstance(e[j], tuple) and not any(e[j]):
                    e[j] = None
            e = tuple(e)
        out.append(e)
    return out + sorted(total.items())
