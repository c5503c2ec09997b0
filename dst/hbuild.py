"""Builds hrdc descriptor objects from plan data.

A node may carry "idiom": bits choosing how a descriptor author would have
written it (symbolic constants instead of numbers, members appended later).
The names used below and their values are those of the HID specifications.
"""
from . import hut

USAGES = hut.NAMES
FLAGS = {1: "Constant", 2: "Variable", 4: "Relative", 8: "Wrap", 0x10: "NonLinear",
         0x20: "NoPreferred", 0x40: "NullState", 0x80: "Volatile", 0x100: "BufferedBytes"}
ZERO_FLAGS = ["Data", "Array", "Absolute", "NoWrap", "Linear", "PreferredState",
              "NoNullPosition", "NonVolatile", "BitField"]
UNITS = {0x11: "Centimeter", 0x12: "Radian", 0x13: "Inch", 0x14: "Degree", 0x101: "Gram",
         0xe011: "G", 0xe111: "Newton", 0xe121: "Joule", 0xf0d121: "Volt",
         0x10001: "Kelvin", 0x10003: "Fahrenheit", 0xf011: "CmPerSec", 0x103: "Slug", 0xf111: "Momentum"}
SYSTEMS = {1: "SILinear", 2: "SIRotation", 3: "EnglishLinear", 4: "EnglishRotation"}
DIMENSIONS = ["length", "mass", "time", "temperature", "current", "luminousintensity"]
SYMBOLIC, APPEND, BUTTONS, COMPOSED = 1, 2, 4, 8


def build(node):
    from hrdc import usage as usages
    from hrdc.descriptor import (Collection, Report, TopLevel, Value, Padding,
                                 Align, Unit)
    from hrdc.usage import Usage, UsageRange

    def u(x, idiom=0):
        if x is None or x == 0:
            return x
        if idiom & SYMBOLIC and x in USAGES:
            mod, name = USAGES[x].split(".")
            return getattr(getattr(usages, mod), name)
        if idiom & BUTTONS and 0x90000 <= x < 0x90080:
            return usages.button.Button(x & 0xffff)
        return Usage.lookup(x)

    def flags(f, idiom):
        if not idiom & SYMBOLIC:
            return f
        out = getattr(Value, ZERO_FLAGS[f % len(ZERO_FLAGS)])
        for bit, name in FLAGS.items():
            if f & bit:
                out = out | getattr(Value, name)
        return out

    def unit(x, idiom):
        if idiom & SYMBOLIC and x in UNITS:
            return getattr(Unit, UNITS[x])
        if idiom & COMPOSED and 0 < x & 0xf <= 4 and not x >> 28:
            out = getattr(Unit, SYSTEMS[x & 0xf])
            for pos, name in enumerate(DIMENSIONS, 1):
                e = x >> 4 * pos & 0xf
                if e:
                    out = out | getattr(Unit, name)(e - 16 if e > 7 else e)
            return out
        return x

    def hier(make, members, idiom):
        if not idiom & APPEND:
            return make(*[go(m) for m in members])
        h = make(*[go(m) for m in members[:1]])
        for m in members[1:]:
            h.append(go(m))
        return h

    built = []

    def go(n):
        if node.get("dag") and "t" in n:
            # an author reusing one object wherever it fits
            for spec, obj in built:
                if spec == n:
                    return obj
        obj = make(n)
        built.append((n, obj))
        return obj

    def make(n):
        t = n["t"]
        i = n.get("idiom", 0)
        if t == "top":
            return hier(TopLevel, n["members"], i)
        if t == "report":
            return hier(lambda *m: Report(n["id"], *m), n["members"], i)
        if t == "coll":
            return hier(lambda *m: Collection(_kind(Collection, n["kind"]), u(n["usage"], i), *m),
                        n["members"], i)
        way = getattr(Value, n["way"])
        if t == "pad":
            return Padding(way, n["size"])
        if t == "align":
            return Align(way, n["boundary"])
        kw = {}
        for src, dst in (("lmin", "logicalMin"), ("lmax", "logicalMax"),
                         ("pmin", "physicalMin"), ("pmax", "physicalMax"),
                         ("exp", "unitExponent"), ("designator", "designator"),
                         ("string", "string"), ("count", "count"),
                         ("alignment", "alignment")):
            if src in n:
                kw[dst] = n[src]
        if "flags" in n:
            kw["flags"] = flags(n["flags"], i)
        if "unit" in n:
            kw["unit"] = unit(n["unit"], i)
        if "named" in n:
            na = n["named"]
            if "range" in na:
                kw["namedArray"] = UsageRange(u(na["range"][0], i), u(na["range"][1], i))
            else:
                kw["namedArray"] = [u(x, i) for x in na["list"]]
        return Value(way, u(n["usage"], i), n["size"], **kw)

    tree = go(node)
    del built[:]     # let the tree live no longer than its users
    return tree


def morph(obj, old, new):
    """Turn the tree obj, built from spec old, into what spec new says by
    removing and appending members.  -> the tree (another one if need be)"""
    if old == new:
        return obj
    if not _alike(old, new):
        return build(new)
    a, b = old["members"], new["members"]
    k = 0
    while k < min(len(a), len(b)) and a[k] == b[k]:
        k += 1
    if k < min(len(a), len(b)) and a[k + 1:] == b[k + 1:] and _alike(a[k], b[k]):
        morph(obj[k], a[k], b[k])
        return obj
    while len(obj) > k:
        obj.pop()
    for m in b[k:]:
        obj.append(build(m))
    return obj


def _alike(a, b):
    return "members" in a and "members" in b and not a.get("dag") and not b.get("dag") and all(
        a.get(f) == b.get(f) for f in set(a) | set(b) if f not in ("members", "idiom"))


def _kind(Collection, k):
    for name in ("Physical", "Application", "Logical", "Report", "NamedArray",
                 "UsageSwitch", "UsageModifier"):
        c = getattr(Collection, name)
        if int(c) == k:
            return c
    return k


# ------------------------------------------------------------------- scripts

def script(node):
    """The descriptor script an author would have written for the tree."""
    def u(x, idiom=0):
        if x is None or x == 0:
            return repr(x)
        if idiom & SYMBOLIC and x in USAGES:
            return USAGES[x]
        if idiom & BUTTONS and 0x90000 <= x < 0x90080:
            return "button.Button(%d)" % (x & 0xffff)
        return "Usage.lookup(0x%x)" % x

    def flags(f, idiom):
        if not idiom & SYMBOLIC:
            return str(f)
        return " | ".join(["Value." + n for b, n in FLAGS.items() if f & b]
                          or ["Value." + ZERO_FLAGS[0], "Value." + ZERO_FLAGS[1]])

    def unit(x, idiom):
        if idiom & SYMBOLIC and x in UNITS:
            return "Unit." + UNITS[x]
        return str(x)

    def kind(k):
        names = ["Physical", "Application", "Logical", "Report", "NamedArray",
                 "UsageSwitch", "UsageModifier"]
        return "Collection." + names[k] if k < len(names) else str(k)

    def go(n, ind):
        t = n["t"]
        i = n.get("idiom", 0)
        pad = "    " * ind
        if "members" in n:
            head = {"top": "TopLevel(", "report": "Report(%s," % n.get("id"),
                    "coll": "Collection(%s, %s," % (kind(n.get("kind", 0)), u(n.get("usage"), i))}[t]
            return (pad + head + "\n" + "".join(go(m, ind + 1) + ",\n" for m in n["members"])
                    + pad + ")")
        way = "Value." + n["way"]
        if t == "pad":
            return pad + "Padding(%s, %d)" % (way, n["size"])
        if t == "align":
            return pad + "Align(%s, %d)" % (way, n["boundary"])
        out = [way, "usage = " + u(n["usage"], i), "size = %d" % n["size"]]
        for src, dst in (("lmin", "logicalMin"), ("lmax", "logicalMax"),
                         ("pmin", "physicalMin"), ("pmax", "physicalMax"),
                         ("exp", "unitExponent"), ("designator", "designator"),
                         ("string", "string"), ("count", "count"),
                         ("alignment", "alignment")):
            if src in n:
                out.append("%s = %r" % (dst, n[src]))
        if "flags" in n:
            out.append("flags = " + flags(n["flags"], i))
        if "unit" in n:
            out.append("unit = " + unit(n["unit"], i))
        if "named" in n:
            na = n["named"]
            out.append("namedArray = " + (
                "UsageRange(%s, %s)" % (u(na["range"][0], i), u(na["range"][1], i))
                if "range" in na else "[" + ", ".join(u(x, i) for x in na["list"]) + "]"))
        return pad + "Value(" + ", ".join(out) + ")"

    return ("from hrdc.usage import *\nfrom hrdc.descriptor import *\n\ndescriptor = "
            + go(node, 0).lstrip() + '\n\nif __name__ == "__main__":\n    compile_main(descriptor)\n')
