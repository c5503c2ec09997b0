"""Seeded generators of workload data.  Everything produced is plain JSON data
(lists, dicts, ints, strings) so that a plan can be written out and replayed.
"""
from . import hidref, hut

# Usage pools: full 32-bit usages, grouped by page.  Mixture of usages hrdc
# knows by name and usages it has no name for.
POOL = {
    0x01: [0x10001, 0x10002, 0x10004, 0x10005, 0x10006, 0x10030, 0x10031, 0x10032,
           0x10033, 0x10034, 0x10035, 0x10036, 0x10037, 0x10038, 0x10039, 0x10080,
           0x10081, 0x10082, 0x100bb],
    0x02: [0x20001, 0x200c4, 0x200c5, 0x200bb, 0x200c8],
    0x07: [0x70000, 0x70004, 0x70005, 0x70006, 0x70007, 0x700e0, 0x700e1, 0x700e2,
           0x700e7, 0x700dd],
    0x08: [0x80001, 0x80002, 0x80003, 0x80004, 0x80005],
    0x09: [0x90001, 0x90002, 0x90003, 0x90004, 0x90005, 0x90008, 0x9000f, 0x90010,
           0x9007f, 0x90080, 0x900c8],
    0x0c: [0xc0001, 0xc0030, 0xc00e2, 0xc00e9, 0xc00ea, 0xc0200, 0xc0201, 0xc0236],
    0x0d: [0xd0001, 0xd0002, 0xd0030, 0xd0042, 0xd0032],
    0x20: [0x200030, 0x200031, 0x200032, 0x200033, 0x2003ff, 0x201000, 0x200201],
    0xff00: [0xff000001, 0xff000002, 0xff000003, 0xff00ffff, 0xff008000],
}
PAGES = sorted(POOL)
POOL[0x0a] = [0xa0000 + _n for _n in (0, 1, 2, 3, 9, 127, 128, 200)]
OTHER_PAGES = sorted(set(hut.BY_PAGE) - set(POOL)) + [0x0a]
POOL.update((_p, hut.BY_PAGE[_p]) for _p in OTHER_PAGES[:-1])
ALL_NAMED = sorted(hut.NAMES)
# logical collections whose usage is a Named Array in the usage tables
NARY = [0xc0036, 0xc0080, 0xc0085]

LOGICAL = [(0, 1), (0, 1), (0, 1), (-127, 127), (-128, 127), (0, 255), (0, 127), (0, 128),
           (-32768, 32767), (0, 65535), (0, 32768), (-1, 1), (1, 8), (0, 7), (0, 100),
           (-2147483648, 2147483647), (0, 2147483647), (-32769, 0), (-129, 128), (0, 0),
           (5, 10), (0, 1400), (0, 4294967), (-8388608, 8388607)]
PHYSICAL = [(0, 315), (0, 0), (0, 255), (0, 65535), (-100, 100), (5, 10), (1, 8),
            (-127, 127), (0, 1), (1, 2), (-1, 0), (0, 128), (0, -1)]
UNITS = [0, 0x11, 0x14, 0x12, 0x13, 0x1001, 0xe011, 0xf0d121, 0x101, 0x33, 0x10010001, 0x40,
         0xe121, 0xe111, 0x10001, 0x1f12, 0xff01e14, 0x7000071, 0x8000083, 0x103, 0xf111, 0xf011, 0x10003]
EXPS = [0, 0, -2, -8, 7, 14, 1, -1]
FLAGS_VAR = [2, 2, 2, 6, 0x42, 0x22, 0x0a, 0x12, 0x82, 0x102, 0x26, 0x1ae]
SIZES = [1, 1, 1, 2, 3, 4, 7, 8, 8, 8, 10, 12, 16, 16, 24, 32, 64, 256]
KINDS = [0, 1, 2, 3, 5, 6]
WAYS = ["Input", "Input", "Input", "Output", "Feature"]


def pick_usage(r, page=None):
    if page is None:
        if r.random() < .12:
            return r.choice(ALL_NAMED)
        page = r.choice(PAGES)
    if r.random() < 0.1:
        return (page << 16) | r.choice([0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff,
                                        r.randrange(0x10000)])
    if page in hut.BY_PAGE and r.random() < .2:
        return r.choice(hut.BY_PAGE[page])
    return r.choice(POOL[page])


def pick_pages(r):
    pages = r.sample(PAGES, r.randrange(1, 4))
    if r.random() < .15:
        pages[-1] = r.choice(OTHER_PAGES)
    return pages


def report_id_pool(r):
    """Report ids of one descriptor: small ones, and pairs that differ by one bit."""
    a = r.choice([1, 1, 2, 3, 17, 127, 128, 129, 254, 255, r.randrange(1, 256)])
    b = a ^ r.choice([1, 2, 4, 8, 16, 32, 64, 128, 128])
    return [a, b or 1, r.choice([1, 2, 3, 4, 255])]


# --------------------------------------------------------------------- trees

def value(r, cfg):
    way = r.choice(cfg["ways"])
    v = {"t": "value", "way": way, "usage": None, "size": r.choice(cfg["sizes"])}
    roll = r.random()
    lo, hi = r.choice(cfg["logical"])
    if roll < cfg["p_const"]:
        v["flags"] = r.choice([1, 3, 3, 7])
        v["usage"] = 0
        if r.random() < 0.3:
            v["count"] = r.randrange(2, 6)
    elif roll < cfg["p_const"] + cfg["p_named"]:
        page = r.choice(cfg["pages"])
        if r.random() < 0.5:
            base = pick_usage(r, page)
            base = min(base, (page << 16) | 0xff00)
            v["named"] = {"range": [base, base + r.choice([1, 2, 3, 5, 20, 221])]}
        else:
            v["named"] = {"list": [pick_usage(r, page if r.random() < .8 else None)
                                   for _ in range(r.randrange(1, 6))]}
        if r.random() < 0.5:
            v["usage"] = r.choice(NARY) if r.random() < 0.6 else pick_usage(r)
        elif r.random() < 0.5:
            v["count"] = r.randrange(1, 8)
        if r.random() < 0.6:
            v["lmin"] = r.choice([0, 0, 1, 2, -1])
    else:
        page = r.choice(cfg["pages"])
        v["usage"] = pick_usage(r, page)
        v["lmin"], v["lmax"] = lo, hi
        if r.random() < cfg["p_phys"]:
            v["pmin"], v["pmax"] = r.choice(PHYSICAL)
        if r.random() < cfg["p_unit"]:
            v["unit"] = r.choice(UNITS)
        if r.random() < cfg["p_unit"]:
            v["exp"] = r.choice(EXPS)
        if r.random() < cfg["p_flags"]:
            v["flags"] = r.choice(FLAGS_VAR)
        if r.random() < cfg["p_count"]:
            v["count"] = r.randrange(2, 9) if r.random() < .95 else r.choice([64, 128, 255, 256, 1000])
    if "flags" not in v or not v["flags"] & 1:
        if r.random() < cfg["p_string"]:
            v["string"] = r.choice([1, 2, 3, 4, 255, 256])
        if r.random() < cfg["p_string"]:
            v["designator"] = r.choice([1, 2, 3, 4, 255])
    if r.random() < cfg["p_align"]:
        v["alignment"] = r.choice([0, 1, 1, 2, 3, 4, 8, 8, 16, 32, 64, 128, r.randrange(2, 40)])
    return v


def tree_cfg(r):
    pages = pick_pages(r)
    return {
        "ways": r.choice([["Input"], WAYS, ["Input", "Output"], ["Feature"]]),
        "sizes": r.choice([[1, 8], [8], SIZES, SIZES, [1], [16, 8, 1]]),
        "logical": r.choice([[r.choice(LOGICAL)], LOGICAL, [(0, 1), (0, 255)]]),
        "pages": pages,
        "p_const": r.choice([0, 0.1]), "p_named": r.choice([0, 0.1, 0.3]),
        "p_phys": r.choice([0, 0.3, 0.7]), "p_unit": r.choice([0, 0, 0.3]),
        "p_flags": r.choice([0, 0.2]), "p_count": r.choice([0, 0.1, 0.3]),
        "p_string": r.choice([0, 0, 0.15]), "p_align": r.choice([0, 0, 0.2]),
        "p_run": r.choice([0, 0.3, 0.6]),
        "n": r.choice([2, 4, 8, 14] * 6 + [40]),
        "depth": r.choice([4, 4, 4, 4, 12]),
        "long": r.random() < .06,
    }


def _members(r, cfg, n, depth):
    out = []
    while n > 0:
        roll = r.random()
        if roll < (.12 if cfg["depth"] == 4 else .4) and depth < cfg["depth"]:
            k = r.randrange(1, 5)
            out.append({"t": "coll", "kind": r.choice(KINDS), "usage": pick_usage(r),
                        "members": _members(r, cfg, k, depth + 1)})
            n -= k
        elif roll < 0.18:
            out.append({"t": "pad", "way": r.choice(cfg["ways"]), "size": r.randrange(1, 17)})
            n -= 1
        elif roll < 0.24:
            out.append({"t": "align", "way": r.choice(cfg["ways"]),
                        "boundary": r.choice([1, 4, 8, 8, 8, 16, 32, 64, 128, r.randrange(2, 40)])})
            n -= 1
        else:
            v = value(r, cfg)
            out.append(v)
            n -= 1
            if r.random() < cfg["p_run"] and v["usage"] and "named" not in v:
                # a run of sibling controls: the case the merging passes exist for
                step = r.choice([1, 1, 1, 1, 0, 2, -1])
                length = r.randrange(2, 6)
                if cfg["long"] and r.random() < .4:
                    length = r.choice([9, 17, 33, 70, 140, 260])
                for i in range(1, length):
                    w = dict(v)
                    w["usage"] = (v["usage"] & ~0xffff) | ((v["usage"] + i * step) & 0xffff)
                    if r.random() < 0.1:
                        w["usage"] = pick_usage(r)
                    for f in ("string", "designator"):
                        if f in w:
                            w[f] = max(1, w[f] + i * r.choice([1, 1, 0]))
                            if r.random() < 0.2:
                                del w[f]
                    out.append(w)
    return out


def tree(r, report_ids=None):
    t = _tree(r, report_ids)
    idiom = r.choice([0, 0, 1, 2, 4, 5, 7, 8, 15])

    def mark(n):
        i = idiom if r.random() < .8 else 0
        if i:
            n["idiom"] = i
        for m in n.get("members", ()):
            mark(m)

    mark(t)
    if r.random() < .15:
        t["dag"] = 1
        for n in list(_hiers(t)):
            if n["members"] and r.random() < .5:
                m = r.choice(n["members"])
                if m["t"] != "coll" or r.random() < .3:
                    n["members"].insert(r.randrange(len(n["members"]) + 1), m)
    return t


def _hiers(n):
    if "members" in n:
        yield n
        for m in n["members"]:
            yield from _hiers(m)


def _tree(r, report_ids):
    cfg = tree_cfg(r)
    rids = report_id_pool(r)
    ids = report_ids if report_ids is not None else r.random() < 0.45

    def coll(n, depth, allow_reports):
        kind = 1 if depth == 0 else r.choice(KINDS)
        if ids and allow_reports:
            members = []
            for _ in range(r.randrange(1, 4)):
                members.append(report(max(1, n // 2), depth + 1))
        else:
            members = _members(r, cfg, n, depth)
        return {"t": "coll", "kind": kind, "usage": pick_usage(r), "members": members}

    def report(n, depth):
        rid = r.choice(rids)
        m = _members(r, cfg, n, depth)
        if r.random() < 0.2:
            m.append({"t": "coll", "kind": r.choice(KINDS), "usage": pick_usage(r),
                      "members": _members(r, cfg, max(1, n // 2), depth + 1)})
        if r.random() < 0.15:
            m.insert(r.randrange(len(m) + 1), report(max(1, n // 2), depth + 1))
        return {"t": "report", "id": rid, "members": m}

    ntop = r.choice([1, 1, 1, 2, 3])
    tops = []
    for _ in range(ntop):
        if ids and r.random() < 0.3 or not ids and r.random() < .1:
            tops.append({"t": "report", "id": r.choice(rids) if ids else 0,
                         "members": [coll(cfg["n"], 0, False)]})
        else:
            tops.append(coll(cfg["n"], 0, True))
    if ntop == 1 and r.random() < 0.5:
        return tops[0]
    return {"t": "top", "members": tops}


# ---- reference semantics of the descriptor language: tree -> plain items

def tree_items(node):
    """Straightforward, unoptimized translation written from the language
    documentation: every value states all its parameters, usages are extended
    (32 bit), padding brings a value to its alignment."""
    out = []
    used = {}

    def a(name, value, size=None):
        out.append((name, value, size if size is not None else hidref.minimal_size(name, value)))

    def pad(way, rid, bits):
        if bits:
            a("ReportCount", 1)
            a("ReportSize", bits)
            a(way, 3)
            used[way, rid] = used.get((way, rid), 0) + bits

    def align(way, rid, boundary):
        if boundary > 1:
            pad(way, rid, -used.get((way, rid), 0) % boundary)

    def visit(n, rid):
        t = n["t"]
        if t == "top":
            for m in n["members"]:
                visit(m, rid)
        elif t == "report":
            for m in n["members"]:
                visit(m, n["id"])
        elif t == "coll":
            a("Usage", n["usage"], 3)
            a("Collection", n["kind"])
            for m in n["members"]:
                visit(m, rid)
            a("EndCollection", 0)
        else:
            if rid:
                a("ReportID", rid)
            if t == "pad":
                pad(n["way"], rid, n["size"])
            elif t == "align":
                align(n["way"], rid, n["boundary"])
            else:
                field(n, rid)

    def field(v, rid):
        way, size, count = v["way"], v["size"], v.get("count", 1)
        align(way, rid, v.get("alignment", min(8, size)))
        flags = v.get("flags", 2)
        named = named_list(v)
        if named:
            flags = 2 if v["usage"] else 0
        wrap = False
        if not flags & 1:
            lmin = v.get("lmin", 1)
            lmax = lmin + len(named) - 1 if named else v["lmax"]
            if v["usage"]:
                a("Usage", v["usage"], 3)
            if named and v["usage"]:
                a("Collection", 2)
                wrap = True
            for u in named or ():
                a("Usage", u, 3)
            pmin, pmax = v.get("pmin", 0) or 0, v.get("pmax", 0) or 0
            if named:
                pmin = pmax = 0
            a("PhysicalMinimum", pmin)
            a("PhysicalMaximum", pmax)
            a("LogicalMinimum", lmin)
            a("LogicalMaximum", lmax)
            a("Unit", v.get("unit", 0))
            a("UnitExponent", v.get("exp", 0))
            if v.get("designator"):
                a("DesignatorIndex", v["designator"])
            if v.get("string"):
                a("StringIndex", v["string"])
        a("ReportCount", count)
        a("ReportSize", size)
        a(way, flags)
        used[way, rid] = used.get((way, rid), 0) + size * count
        if wrap:
            a("EndCollection", 0)

    visit(node, 0)
    return out


def named_list(v):
    n = v.get("named")
    if not n:
        return None
    if "range" in n:
        return list(range(n["range"][0], n["range"][1] + 1))
    return list(n["list"])


# ----------------------------------------------------------- raw item streams

def stream(r, delimiters=True, sloppy=True, pushpop=None):
    """A device-style hand-written descriptor: list of [name, value, size]."""
    out = []
    pages = pick_pages(r)
    nonminimal = r.choice([0, 0, 0.1, 0.5])
    p_push = r.choice([0, 0, 0.1, 0.3]) if pushpop is None else pushpop
    p_local = r.choice([0, 0, 0.2, 0.2, 0.6])
    p_flags = r.choice([.3, .3, .3, .8])
    deep = r.random() < .15
    p_ext = r.choice([0, 0, 0, 0, .3])
    p_again = r.choice([0, 0, .3, .7])
    ids = r.random() < 0.4
    rids = report_id_pool(r)
    logical = r.choice([[r.choice(LOGICAL)], LOGICAL])
    p_phys = r.choice([0, 0.2, 0.6])
    ways = r.choice([["Input"], WAYS])
    st = {"page": None, "push": 0}
    long = r.random() < .05
    depth_max = r.choice([3, 3, 3, 3, 10])
    redundancy = r.choice([0, 0.3, 0.8])
    g = {"LogicalMinimum": None, "LogicalMaximum": None, "PhysicalMinimum": 0,
         "PhysicalMaximum": 0, "Unit": 0, "UnitExponent": 0,
         "ReportSize": None, "ReportCount": None, "ReportID": None}
    gstack = []

    def a(name, value, size=None):
        if size is None:
            size = hidref.minimal_size(name, value)
            if size and r.random() < nonminimal and hidref.BY_NAME[name][0] != 2:
                size = r.randrange(size, 4)
            if size == 1 and value == 0 and r.random() < 0.1 and name in ("Input", "Output", "Feature"):
                size = 0
        out.append([name, value, size])

    def glob(name, value):
        if g[name] != value or r.random() < redundancy:
            g[name] = value
            a(name, value)

    def page(p):
        if st["page"] != p or r.random() < redundancy * 0.5:
            st["page"] = p
            a("UsagePage", p)

    def usage_short(u):
        a("Usage", u & 0xffff)

    def scope_usages(n, p):
        """n usages for one scope, all short ones in page p."""
        if p and r.random() < p_ext:
            # extended ones, whatever page is in force
            for i in range(n):
                a("Usage", pick_usage(r, p) | p << 16, 3)
            return
        page(p)
        if n > 2 and r.random() < .08:
            # ranges and single usages in one scope
            while n > 0:
                k = min(n, r.randrange(1, 4))
                base = min(r.choice(POOL[p]) & 0xffff, 0xffff - k)
                if k > 1 or r.random() < .1:
                    a("UsageMinimum", base)
                    a("UsageMaximum", base + k - 1)
                else:
                    a("Usage", base)
                n -= k
            return
        if p and n > 1 and r.random() < .02:
            # running on into the next page
            base = ((p << 16) | 0xffff) - r.randrange(n)
            for i in range(n):
                a("Usage", base + i, 3)
            return
        roll = r.random()
        if roll < 0.35 and n > 1:
            base = r.choice(POOL[p]) & 0xffff
            base = min(base, 0xffff - n)
            lo, hi = base, base + n - 1
            if r.random() < 0.2:
                a("UsageMinimum", (p << 16) | lo, 3) if p else None
                a("UsageMaximum", (p << 16) | hi, 3) if p else None
            else:
                a("UsageMinimum", lo)
                a("UsageMaximum", hi)
        elif roll < 0.7:
            base = min(r.choice(POOL[p]) & 0xffff, 0xffff - n)
            for i in range(n):
                a("Usage", base + i)
        else:
            for i in range(n):
                u = pick_usage(r, p)
                if r.random() < 0.1:
                    u = pick_usage(r)
                    a("Usage", u, 3) if u >> 16 else usage_short(u)
                elif r.random() < 0.1 and u >> 16:
                    a("Usage", u, 3)
                else:
                    usage_short(u)

    def delimited(n, p):
        page(p)
        running = r.random() < .4
        u = pick_usage(r, p)
        if running and (u & 0xffff) + 4 * n + 4 > 0xffff:
            running = False
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            # usages without alternatives before the sets
            u = u + 1 if running else pick_usage(r, p)
            usage_short(u)
        for i in range(n):
            a("Delimiter", 1)
            for _ in range(r.randrange(1, 4)):
                u = u + 1 if running else pick_usage(r, p)
                if r.random() < 0.2:
                    a("Usage", u, 3) if u >> 16 else usage_short(u)
                else:
                    usage_short(u)
            a("Delimiter", 0)

    def others(n):
        for base in ("Designator", "String"):
            if r.random() < p_local:
                k = r.choice([1, n])
                lo = r.choice([0, 1, 1, 2, 250])
                if r.random() < 0.3 and k > 1:
                    a(base + "Minimum", lo)
                    a(base + "Maximum", lo + k - 1)
                else:
                    for i in range(k):
                        a(base + "Index", lo + (i if r.random() < .8 else 0))

    def data():
        n = r.choice([1, 1, 1, 2, 3, 5, 8])
        if long and r.random() < .3:
            n = r.choice([16, 33, 64, 128, 255, 256, 257, 300])
        lo, hi = r.choice(logical)
        todo = [("LogicalMinimum", lo), ("LogicalMaximum", hi), ("ReportSize", r.choice(SIZES)),
                ("ReportCount", n)]
        if r.random() < p_phys:
            ph = r.choice([(lo, hi), r.choice(PHYSICAL), (0, 0)])
            todo += [("PhysicalMinimum", ph[0]), ("PhysicalMaximum", ph[1])]
            if r.random() < 0.3:
                todo += [("Unit", r.choice(UNITS)), ("UnitExponent", r.choice(EXPS))]
        r.shuffle(todo)
        if r.random() < 0.4 and g["ReportSize"] is not None:
            todo = [t for t in todo if r.random() < 0.4]
        k = r.random()
        for name, v in todo[:len(todo) // 2]:
            glob(name, v)
        n = g["ReportCount"] or n
        if k < 0.12:
            flags = r.choice([1, 3])
        else:
            flags = r.choice(FLAGS_VAR if r.random() < p_flags else [2]) if k < 0.85 else 0
            if r.random() < 0.95:
                nu = n if r.random() < 0.8 else r.choice([1, max(1, n - 1), n + 1])
                nu = min(nu, 400)
                if delimiters and r.random() < 0.1:
                    delimited(nu, r.choice(pages))
                else:
                    scope_usages(nu, r.choice(pages))
            others(n)
        for name, v in todo[len(todo) // 2:]:
            glob(name, v)
        if g["ReportSize"] is None:
            glob("ReportSize", 8)
        if g["ReportCount"] is None:
            glob("ReportCount", 1)
        a(r.choice(ways), flags)

    def pushes():
        if deep and st["push"] > 3 and r.random() < .6:
            for _ in range(r.randrange(1, st["push"] + 1)):
                push(1)
                if r.random() < .1:
                    data()
            return
        push()
        if deep and r.random() < .5:
            # many levels, each with something of its own
            for _ in range(r.choice([3, 10, 20, 40])):
                k = r.random()
                if k < .3:
                    page(r.choice(pages))
                elif k < .6:
                    glob("LogicalMinimum", r.choice(logical)[0])
                    glob("LogicalMaximum", max(g["LogicalMinimum"], r.choice(logical)[1]))
                elif k < .8:
                    glob("ReportSize", r.choice(SIZES))
                push(.1)

    def push(pop=.6):
        nonlocal g
        if st["push"] and r.random() < pop:
            st["push"] -= 1
            g, st["page"] = gstack.pop()
            a("Pop", 0)
        else:
            st["push"] += 1
            gstack.append((dict(g), st["page"]))
            a("Push", 0)

    def coll(n, depth):
        scope_usages(1, r.choice(pages))
        if r.random() < p_local:
            a("StringIndex", r.randrange(4))
        a("Collection", 1 if depth == 0 else r.choice(KINDS + [0x80]))
        while n > 0:
            if ids and r.random() < 0.3:
                glob("ReportID", r.choice(rids))
            if r.random() < p_push:
                pushes()
            if depth < depth_max and r.random() < (.2 if depth_max == 3 else .45):
                coll(max(1, n // 2), depth + 1)
                n -= max(1, n // 2)
            else:
                data()
                n -= 1
                while r.random() < p_again and out[-1][0] in WAYS and g["ReportCount"] == 1:
                    # one more of the same
                    last = out[-1]
                    if last[1] & 3 == 2 and out[-2][0].startswith("Usage"):
                        scope_usages(1, st["page"] if st["page"] in POOL else r.choice(pages))
                    out.append(list(last))
        a("EndCollection", 0)

    for _ in range(r.choice([1, 1, 2])):
        coll(r.choice([1, 2, 4, 8] * 5 + [30]), 0)
    return out
