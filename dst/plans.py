"""Seeded generation of plans, per property.  plan = plain JSON data."""
import random

from . import gen, hidref

FMTS = ["binary", "hex", "code"]
NAMES = sorted(hidref.BY_NAME)
EDGE = [0, 1, 2, 0x7e, 0x7f, 0x80, 0x81, 0xfe, 0xff, 0x100, 0x101, 0x7fff, 0x8000, 0x8001,
        0xfffe, 0xffff, 0x10000, 0x10001, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff]


# ----------------------------------------------------------------- workloads

def wild_item(r):
    """Any item type, any value, any width able to hold it."""
    name = r.choice(NAMES)
    if name in hidref.NO_PAYLOAD:
        return [name, 0, 0 if r.random() < .8 else r.randrange(4)]
    size = r.randrange(4)
    nbytes = (0, 1, 2, 4)[size]
    if not nbytes:
        return [name, 0, 0]
    roll = r.random()
    if roll < .5:
        raw = r.choice(EDGE) & ((1 << 8 * nbytes) - 1)
    elif roll < .6:
        raw = (1 << 8 * nbytes) - 1 - r.randrange(3)
    else:
        raw = r.getrandbits(8 * nbytes)
    if hidref.BY_NAME[name][2] and raw >> (8 * nbytes - 1):
        raw -= 1 << 8 * nbytes
    return [name, raw, size]


def wild(r):
    n = r.choice([0, 1, 2, 3, 5, 8, 20, 20, 60, 200])
    if r.random() < .02:
        n = r.choice([1500, 3000])
    elif r.random() < .004:
        n = 20000
    return [wild_item(r) for _ in range(n)]


def device(r, big=.03):
    out = gen.stream(r)
    if r.random() < big:
        for _ in range(r.choice([3, 8, 25])):
            out = out + gen.stream(r)
    return [list(i) for i in out]


def boundary_cut(r, items):
    """Stop the stream at some item boundary."""
    if items and r.random() < .35:
        return items[:r.randrange(len(items) + 1)]
    return items


def style(r, fmt):
    if fmt == "binary":
        return {}
    st = {"upper": r.random() < .3, "per": r.choice([1, 2, 3, 8, 16, 64, 64, 5000])}
    if fmt == "hex":
        st["prefix"] = r.random() < .3
        st["sep"] = r.choice([" ", " ", ", ", "\t", "  ", ",", "-", ":"])
        st["eol"] = r.choice(["\n", "\n", "\r\n", " ; \n"])
    else:
        st["notail"] = r.random() < .3
        st["notes"] = r.choice([[], ["//"], ["/*"], ["//", "blank"], ["uni", "//", "/*"],
                                 ["url", "//"], ["cross", "/*"], ["multi"], ["multi", "url", "cross"]])
        if r.random() < .3:
            st["head"] = r.choice([1, 1, 2, 2, 3, 4])
            st["foot"] = r.choice([0, 1, 2, 3])
            st["eol"] = r.choice(["\n", "\n", "\r\n"])
    return st


def source(r, items, fmt=None):
    fmt = fmt or r.choice(FMTS)
    return {"fmt": fmt, "items": items, "style": style(r, fmt), "damage": None}


def chunks(r):
    if r.random() < .45:
        return None
    k = r.random()
    if k < .3:
        return [1]
    if k < .6:
        return [r.randrange(1, 8) for _ in range(r.randrange(1, 6))]
    return [r.choice([1, 2, 3, 7, 63, 64, 512, 4096]) for _ in range(r.randrange(1, 5))]


def src_spec(r, fmt):
    kind = r.choice(["raw", "buf", "text", "obj"] if fmt == "binary" else ["text", "text", "obj"])
    return {"kind": kind, "bs": r.choice([1, 2, 7, 64, 8192]), "chunks": chunks(r)}


def snk_spec(r, fmt):
    kind = r.choice(["raw", "buf", "text", "obj"] if fmt == "binary" else ["text", "text", "obj"])
    return {"kind": kind, "bs": r.choice([1, 2, 7, 64, 8192]), "chunks": chunks(r),
            "wt": r.random() < .3, "lb": r.random() < .2}


WINDOWS = [0, 5, 15, 25, 32, 37, 45, 55, 65, 100]


def window(r):
    if r.random() < .6:
        return [0, 100]
    a, b = sorted(r.sample(WINDOWS, 2))
    return [a, b]


IO_ERR = ["EIO", "ENOSPC", "EPIPE", "EDQUOT", "ECONNRESET"]


def io_fault(r, has_src=True, kinds=("err", "kbd", "mem", "short", "cap", "err", "again")):
    k = r.choice(kinds)
    if k == "again":
        if has_src and r.random() < .3:
            return {"at": "src", "op": "read", "n": 1, "kind": "again"}
        return {"at": "snk", "op": "write", "frac": r.random(), "kind": "again", "sticky": r.random() < .3}
    if k == "cap":
        return {"at": "snk", "op": "cap", "frac": r.random(), "errno": r.choice(["ENOSPC", "EFBIG", "EDQUOT"])}
    if k == "short":
        return {"at": "snk", "op": "write", "frac": r.random(), "kind": "short", "keep": r.randrange(1, 6)}
    at, op = ("src", "read") if has_src and r.random() < .35 else ("snk", "write")
    f = {"at": at, "op": op, "frac": r.random(), "kind": k}
    if k == "err":
        f["errno"] = r.choice(IO_ERR)
        f["sticky"] = r.random() < .5
    if k == "kbd" and op == "write" and r.random() < .5:
        f["keep"] = r.randrange(1, 5)
    return f


def line_fault(r, kinds=("kbd", "kbd", "mem")):
    f = {"op": "line", "frac": r.random(), "kind": r.choice(kinds)}
    if r.random() < .5:
        f["loc"] = r.random()
    return f


def faults(r, p, has_src=True, line=0.0):
    out = []
    if r.random() < p:
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            out.append(io_fault(r, has_src))
    if r.random() < line:
        out.append(line_fault(r))
    return out


def convert(r, items, opt=None, p_fault=0, line=0, ifmt=None, ofmt=None):
    i = source(r, items, ifmt)
    o = ofmt or r.choice(FMTS)
    s = {"op": "convert", "in": i, "ofmt": o, "opt": opt, "src": src_spec(r, i["fmt"]),
         "snk": snk_spec(r, o), "faults": faults(r, p_fault, True, line)}
    if r.random() < .2:
        s["via"] = [{"ofmt": r.choice(FMTS), "opt": window(r) if opt and r.random() < .6 else None}
                    for _ in range(r.choice([1, 1, 2, 3]))]
    return s


def feed(r, items, opt=None, p_fault=0, line=0):
    o = r.choice(FMTS)
    return {"op": "feed", "items": items, "ofmt": o, "opt": opt, "snk": snk_spec(r, o),
            "faults": faults(r, p_fault, False, line)}


def big_tree(r):
    if r.random() < .03:
        ids = r.random() < .5
        return {"t": "top", "members": [gen.tree(r, ids) for _ in range(r.choice([3, 8]))]}
    return gen.tree(r)


def compile_(r, p_fault=0, line=0, tree=None):
    o = r.choice(FMTS)
    s = {"op": "compile", "tree": tree or big_tree(r), "ofmt": o,
         "opt": None if r.random() < .35 else window(r),
         "snk": snk_spec(r, o), "faults": faults(r, p_fault, False, line)}
    if r.random() < .15:
        s["define"] = [r.choice([1, 2, 5, 127, 128, 129, 200]) for _ in range(r.randrange(1, 4))]
        s["late_build"] = r.random() < .5
    return s


def tree_as_items(r):
    return [list(i) for i in gen.tree_items(gen.tree(r))]


def decompile(r, p_fault=0, line=0, items=None):
    items = items if items is not None else (tree_as_items(r) if r.random() < .6 else tame_device(r))
    i = source(r, light(items))
    return {"op": "decompile", "in": i, "src": src_spec(r, i["fmt"]), "ofmt": "text",
            "snk": snk_spec(r, "text"), "faults": faults(r, p_fault, True, line)}


def light(items, limit=3000):
    """Same items, with fewer fields per report where there would be tens of
    thousands: the decompiler writes each of them down."""
    n = total = 0
    for name, value, *_ in items:
        if name == "ReportCount":
            n = value
        elif name in ("Input", "Output", "Feature"):
            total += n
    if total <= limit:
        return items
    return [[i[0], min(i[1], 8), 1] if i[0] == "ReportCount" else i for i in items]


def tame_device(r):
    return [list(i) for i in gen.stream(r, delimiters=r.random() < .2,
                                        pushpop=r.choice([0, 0, .1, .3]))]


def unbalance(r, items):
    """Push and Pop that do not pair up: an input the decompiler refuses or,
    with Push to spare, takes."""
    items = [i for i in items if i[0] not in ("Push", "Pop") or r.random() < .7]
    for _ in range(r.choice([1, 1, 2])):
        items.insert(r.randrange(len(items) + 1), [r.choice(["Push", "Pop"]), 0, 0])
    return items


def some_items(r):
    """Items for plain conversion."""
    k = r.random()
    if k < .4:
        return wild(r)
    if k < .8:
        return device(r)
    return tree_as_items(r)


# ---------------------------------------------------------------- properties

def p_c01(r):
    mode = r.random()
    pf = r.choice([0, 0, .5, .9])
    n = r.choice([1, 1, 1, 2, 3, 5])
    ss = []
    for _ in range(n):
        items = some_items(r)
        if r.random() < .15:
            ss.append(feed(r, items, None, pf))
        else:
            ss.append(convert(r, items, None, pf))
    return {"mode": "api", "sessions": ss}


def p_c02(r):
    pf = r.choice([0, 0, 0, .5])
    n = r.choice([1, 1, 1, 1, 2, 3])
    ss = []
    for _ in range(n):
        k = r.random()
        items = device(r) if k < .8 else tree_as_items(r)
        items = boundary_cut(r, items)
        o = window(r)
        if r.random() < .25:
            ss.append(feed(r, items, o, pf))
        else:
            ss.append(convert(r, items, o, pf))
    return {"mode": "api", "sessions": ss}


def p_c03(r):
    pf = r.choice([0, 0, 0, .5])
    n = r.choice([1, 1, 1, 2, 3])
    t = None
    ss = []
    for k in range(n):
        if t is not None and r.random() < .5:
            s = compile_(r, pf, 0, t)
            s["share"] = 0
            s.pop("define", None)
            s.pop("late_build", None)
        else:
            s = compile_(r, pf)
            if k == 0 and n > 1:
                t = s["tree"]
                s["share"] = 0
                s.pop("late_build", None)
        ss.append(s)
    owner_changes(r, ss)
    return {"mode": "api", "sessions": ss}


def one_op(r, p_fault, line, dec=.15):
    if r.random() < dec:
        return decompile(r, p_fault, line)
    k = r.random() * .85
    if k < .3:
        return convert(r, some_items(r), None, p_fault, line)
    if k < .55:
        return convert(r, device(r), window(r), p_fault, line)
    if k < .75:
        return compile_(r, p_fault, line)
    return feed(r, device(r), r.choice([None, window(r)]), p_fault, line)


def p_c04(r):
    if r.random() < .2:
        # the same through the command line
        files = {"out": junk(r)} if r.random() < .3 else {}
        return {"mode": "cli", "runs": [command(r, files, 1, r.random() < .3, 0)], "files": files}
    s = one_op(r, 1, 0, .25)
    if r.random() < .5:
        s["faults"] = [line_fault(r)]
    return {"mode": "api", "sessions": [s]}


def damage(r, data_len, text):
    k = r.random()
    if k < .55:
        return {"level": "desc" if text and r.random() < .6 else "file", "kind": "cut",
                "n": r.randrange(max(1, data_len))}
    if k < .8:
        return {"level": "desc", "kind": "flip", "n": r.randrange(max(1, data_len)),
                "x": r.choice([1, 2, 3, 4, 8, 0x0c, 0x10, 0x40, 0x80, r.randrange(1, 256)])}
    if k < .88:
        return {"level": "desc", "kind": "drop", "n": r.randrange(max(1, data_len))}
    if k < .94:
        return {"level": "desc", "kind": "dup", "n": r.randrange(max(1, data_len))}
    return {"level": "desc", "kind": "tail", "x": r.choice([0x05, 0x09, 0xc1, 0xfe, 0xff, 0x0c, 0xa5, 0x7f, r.randrange(256)])}


def damaged(r, s):
    from . import render
    spec = s["in"]
    whole = render.render(spec)
    desc = hidref.encode([tuple(i) for i in spec["items"]])
    d = damage(r, 1, spec["fmt"] != "binary")
    if spec["fmt"] == "code" and r.random() < .25:
        d = {"level": "file", "kind": "junk", "s": r.choice(["g", "#", "", "1", "f", ";", "0x"]),
             "w": r.choice([0, 1, 1, 2]), "n": 0}
    if d["kind"] != "tail":
        n = len(desc) if d["level"] == "desc" else len(whole)
        # bias towards the end, where everything before is fine
        d["n"] = r.randrange(max(1, n)) if r.random() < .6 else max(0, n - 1 - r.randrange(12))
    bare = [k for k, i in enumerate(spec["items"]) if i[0] in ("EndCollection", "Push", "Pop")]
    if bare and r.random() < .12:
        # a payload where none is allowed
        k = r.choice(bare)
        d = {"level": "desc", "kind": "flip", "n": len(hidref.encode([tuple(i) for i in spec["items"][:k]])),
             "x": r.choice([1, 1, 2, 3])}
    spec["damage"] = d
    if s.get("op", "decompile") == "decompile" and heavy(spec):
        # corruption announcing millions of fields: the decompiler would
        # rightly take minutes to write them all down
        spec["damage"] = {"level": d["level"], "kind": "cut", "n": d.get("n", 0)}
        if heavy(spec):
            spec["damage"] = None
    return s


def heavy(spec):
    from . import oracle
    lead = oracle.input_items(spec)[0]
    low = {}
    for name, value, *_ in lead:
        if name == "ReportCount" and value > 5000:
            return True
        if name.endswith("Minimum"):
            low[name[:-7]] = value
        elif name.endswith("Maximum") and name[:-7] in ("Usage", "Designator", "String"):
            if value - low.get(name[:-7], 0) > 100000:
                return True
    return False


def p_c05(r):
    k = r.random()
    if k < .45:
        s = convert(r, some_items(r), None)
    elif k < .75:
        s = convert(r, device(r), window(r))
    else:
        s = decompile(r)
    damaged(r, s)
    if r.random() < .2 and s["op"] == "decompile":
        # whole items, but inside a collection
        its = s["in"]["items"]
        s["in"]["damage"] = None
        s["in"]["items"] = its[:r.randrange(len(its) + 1)]
    return {"mode": "api", "sessions": [s], "want_intact": True}


def no_defines_with_decompile(ss):
    if any(s["op"] == "decompile" for s in ss):
        for s in ss:
            s.pop("define", None)


def share_trees(r, ss):
    cs = [s for s in ss if s["op"] == "compile"]
    if len(cs) > 1 and r.random() < .6:
        for s in cs:
            s["tree"] = cs[0]["tree"]
            s["share"] = 0
            s.pop("late_build", None)
            s.pop("define", None)


def changed(r, t):
    """The tree after its owner appended or removed some members."""
    import copy
    t = copy.deepcopy(t)
    hs, inside = [], []

    def walk(n, rid):
        if "members" in n:
            rid = rid or n.get("id")
            (inside if rid else hs).append(n)
            for m in n["members"]:
                walk(m, rid)

    walk(t, None)
    # fields belong to reports as soon as there are report ids
    hs = inside or hs
    for _ in range(r.choice([1, 1, 2, 4])):
        h = r.choice(hs)["members"]
        cfg = gen.tree_cfg(r)
        k = r.random()
        if k < .3 and h:
            h.pop()
        elif k < .5 and h:
            h.pop()
            h.append(gen.value(r, cfg))
        elif k < .6 and h:
            h.append(copy.deepcopy(r.choice(h)))
        else:
            h.append(gen.value(r, cfg))
    return t


def owner_changes(r, ss):
    """Sequential sessions sharing a tree: its owner changes it in between."""
    if r.random() < .5:
        t = None
        for s in ss:
            if s.get("share") is not None:
                if t is not None and r.random() < .7:
                    t = changed(r, t)
                t = t or s["tree"]
                s["tree"] = t


def weight(n):
    if "members" in n:
        return 2 + sum(weight(m) for m in n["members"])
    if "named" in n:
        return 3 + len(gen.named_list(n))
    return 4


def small_tree(r, limit):
    for _ in range(20):
        t = gen.tree(r)
        if weight(t) <= limit:
            return t
    return {"t": "coll", "kind": 1, "usage": 0x10002, "members": [gen.value(r, gen.tree_cfg(r))]}


def p_c06(r):
    n = r.choice([2, 2, 2, 3, 4])
    pf = r.choice([0, 0, .4])
    mode = r.random()
    ss = []
    if mode < .3:
        for _ in range(n):
            ss.append(feed(r, device(r, 0), r.choice([None, window(r), [0, 100]]), pf))
        order = []
        total = sum(len(s["items"]) + 1 for s in ss)
        burst = r.choice([1, 1, 2, 5])
        while len(order) < total:
            order += [r.randrange(n)] * r.randrange(1, burst + 1)
        sch = {"mode": "interleave", "order": order}
    elif mode < .45:
        import copy
        for _ in range(n):
            if ss and r.random() < .3:
                ss.append(copy.deepcopy(ss[0]))
                continue
            ss.append(one_op(r, pf, 0))
            if "in" in ss[-1] and r.random() < .1:
                ss[-1]["in"]["items"] = unbalance(r, ss[-1]["in"]["items"])
        share_trees(r, ss)
        no_defines_with_decompile(ss)
        at = []
        for _ in range(n - 1):
            kind = r.choice(["line", "line", "io"])
            scale = r.choice([2, 5, 20] if kind == "io" else [5, 30, 200, 1000])
            at.append([r.randrange(4), kind, 1 + int(r.expovariate(1.0 / scale))])
        sch = {"mode": "nested", "at": at}
    else:
        same = r.random() < .3
        first = None
        gran = r.choice(["line", "line", "opcode"])
        limit = 40 if gran == "opcode" else 120
        for _ in range(n):
            if same and first is not None:
                s = dict(first)
            else:
                k = r.random()
                if k < .4:
                    s = compile_(r, pf, .05, small_tree(r, limit))
                elif k < .6:
                    s = convert(r, device(r, 0)[:limit], window(r), pf, .05)
                elif k < .75:
                    s = convert(r, some_items(r)[:limit], None, pf, .05)
                else:
                    items = ([list(i) for i in gen.tree_items(small_tree(r, limit))]
                             if r.random() < .6 else tame_device(r))
                    s = decompile(r, pf, .05, items)
                first = s
                if "in" in s and r.random() < .1:
                    s["in"]["items"] = unbalance(r, s["in"]["items"])
            ss.append(s)
        share_trees(r, ss)
        no_defines_with_decompile(ss)
        scale = r.choice([3, 10, 50, 300, 2000]) * (4 if gran == "opcode" else 1)
        gaps = [[1 + int(r.expovariate(1.0 / scale)), r.randrange(8)]
                for _ in range(r.choice([1, 2, 3, 6, 30]))]
        sch = {"mode": "threads", "gran": gran, "gaps": gaps, "cycle": r.random() < .6,
               "start": r.randrange(n)}
        if r.random() < .4:
            p = r.choice([.02, .1, .3])
            sch["fresh"] = [r.randrange(8) if r.random() < p else -1 for _ in range(97)]
            sch["fresh_each"] = r.random() < .5
    return {"mode": "api", "sessions": ss, "schedule": sch, "want_solo": True}


def p_c07(r):
    n = r.choice([2, 3, 3, 4, 6])
    ss = []
    for k in range(n):
        last = k == n - 1
        s = one_op(r, 0 if last else .3, 0 if last else .25)
        if s["op"] == "feed" and not last and r.random() < .4:
            s["abandon"] = True
            s["items"] = s["items"][:r.randrange(len(s["items"]) + 1)]
        if "in" in s and not last and r.random() < .15:
            damaged(r, s)
        ss.append(s)
    if r.random() < .5:
        # retry of an earlier operation
        import copy
        s = copy.deepcopy(r.choice(ss[:-1]))
        s["faults"] = []
        s.pop("abandon", None)
        if "in" in s:
            s["in"]["damage"] = None
        ss.append(s)
    if r.random() < .3:
        for s in ss:
            if "in" in s and r.random() < .6:
                s["in"]["items"] = unbalance(r, s["in"]["items"])
    share_trees(r, ss)
    owner_changes(r, ss)
    no_defines_with_decompile(ss)
    return {"mode": "api", "sessions": ss, "schedule": {"mode": "seq"}, "want_solo": True}


# ------------------------------------------------------------- command lines

def command(r, files, p_fault=0.0, crash=False, bad=.12):
    tool = r.choice(["convert", "convert", "compile", "compile", "decompile"])
    run = {"tool": tool, "argv": [], "faults": [], "roles": {"in": "in", "out": "out"},
           "unbuf": r.random() < .3, "bs": r.choice([1, 16, 8192, 8192]),
           "chunks": {}, "piped": r.random() < .5}
    argv = run["argv"]
    named_out = r.random() < .65
    if tool == "compile":
        run["tree"] = gen.tree(r)
        run["script"] = r.random() < .4
        run["ofmt"] = r.choice(FMTS)
        if run["ofmt"] != "binary" or r.random() < .5:
            argv += ["-o", run["ofmt"]]
        if r.random() < .4:
            argv.append(r.choice(["-N", "-N", "--no-optimize"]))
        if named_out:
            argv.append("@out")
        elif r.random() < .3:
            argv.append("-")
    else:
        if tool == "convert":
            run["opt"] = r.random() < .5
            items = device(r) if run["opt"] or r.random() < .5 else some_items(r)
            if r.random() < .2:
                items = boundary_cut(r, items)
        else:
            items = light(tree_as_items(r) if r.random() < .6 else tame_device(r))
        spec = source(r, items)
        run["ifmt"] = spec["fmt"]
        if r.random() < bad:
            damaged(r, {"in": spec})
        if run["ifmt"] != "binary" or r.random() < .5:
            argv += [r.choice(["-i", "-i", "--input-format"]), run["ifmt"]]
        if tool == "convert":
            run["ofmt"] = r.choice(FMTS)
            if run["ofmt"] != "binary" or r.random() < .5:
                argv += [r.choice(["-o", "--output-format"]), run["ofmt"]]
            if run["opt"]:
                argv.append(r.choice(["-O", "-O", "--optimize"]))
        if named_out or r.random() < .5:
            run["in_role"] = "in"
            files["in"] = spec
            argv.append("@in")
            if named_out:
                argv.append("@out")
        else:
            run["in_role"] = "stdin"
            run["stdin"] = spec
            if r.random() < .3:
                argv.append("-")
    run["out_name"] = "out" if named_out else "stdout"
    orole = "out" if named_out else "stdout"
    irole = {"in": "in", "stdin": "stdin"}.get(run.get("in_role"))
    for role in (orole, irole):
        if role and (role != "stdout" or not run["unbuf"] or run.get("ofmt") == "binary"):
            run["chunks"][role] = chunks(r)
    text_unbuf = run["unbuf"] and not named_out and (run.get("ofmt") != "binary" or tool == "decompile")
    if text_unbuf:
        # CPython's own text layer drops the rest of a short unbuffered write
        run["chunks"].pop("stdout", None)
    if r.random() < bad * .6:
        k = r.random()
        if k < .4 and tool != "compile" and run.get("in_role") == "in":
            run["bad_args"] = "missing input"
            files.pop("in", None)
        elif k < .7:
            run["bad_args"] = "unknown format"
            argv[:0] = ["-o" if tool != "decompile" else "-i", "nosuch"]
            # a later option would win: drop it
            for o in ("-o", "--output-format") if tool != "decompile" else ("-i", "--input-format"):
                while o in argv[2:]:
                    j = argv.index(o, 2)
                    del argv[j:j + 2]
        else:
            run["bad_args"] = "unknown option"
            argv.append("--nosuch")
    if r.random() < p_fault:
        for _ in range(r.choice([1, 1, 1, 2])):
            run["faults"].append(cli_fault(r, orole, irole, text_unbuf, crash))
    return run


def cli_fault(r, orole, irole, text_unbuf, crash):
    if crash:
        k = r.random()
        if k < .4:
            return line_fault(r, ("crash",))
        if k < .8 or not irole:
            f = {"at": orole, "op": "write", "frac": r.random(), "kind": "crash"}
            if r.random() < .5:
                f["keep"] = r.randrange(1, 6)
            return f
        return {"at": irole, "op": "read", "frac": r.random(), "kind": "crash"}
    k = r.random()
    if k < .25:
        return line_fault(r, ("kbd", "mem"))
    if k < .5 and not text_unbuf:
        return {"at": orole, "op": "cap", "frac": r.random(), "errno": r.choice(["ENOSPC", "EDQUOT", "EFBIG"])}
    if k < .6 and irole:
        return {"at": irole, "op": "read", "frac": r.random(), "kind": r.choice(["err", "err", "kbd"]),
                "errno": r.choice(["EIO", "EISDIR", "ESTALE"]), "sticky": r.random() < .5}
    if k < .66 and irole == "in":
        return {"at": "in", "op": "open", "frac": 0, "kind": "err", "errno": r.choice(["EACCES", "ENOENT", "EIO"])}
    if k < .72 and orole == "out":
        return {"at": "out", "op": "open", "frac": 0, "kind": "err", "errno": r.choice(["EACCES", "ENOSPC", "EROFS"])}
    if k < .75 and orole == "out":
        # file systems over the network report failed writes late
        return {"at": "out", "op": "close", "frac": 0, "kind": "err", "errno": r.choice(["EIO", "EDQUOT", "ENOSPC"])}
    if k < .8 and not text_unbuf:
        return {"at": orole, "op": "write", "frac": r.random(), "kind": "short", "keep": r.randrange(1, 6)}
    if k < .85 and not text_unbuf:
        # non-blocking streams
        if irole == "stdin" and r.random() < .5:
            return {"at": "stdin", "op": "read", "n": 1, "kind": "again"}
        if orole == "stdout":
            return {"at": "stdout", "op": "write", "frac": r.random(), "kind": "again", "sticky": r.random() < .5}
    return {"at": orole, "op": "write", "frac": r.random(), "kind": r.choice(["err", "err", "err", "kbd"]),
            "errno": r.choice(IO_ERR), "sticky": r.random() < .6}


def junk(r):
    return bytes(r.randrange(256) for _ in range(r.choice([0, 5, 300, 3000]))).hex()


def p_c08(r):
    files = {}
    if r.random() < .5:
        files["out"] = junk(r)
    n = r.choice([1, 1, 1, 2])
    runs = [command(r, files, r.choice([.2, .8])) ]
    if n == 2:
        again = dict(runs[0], faults=[])
        runs.append(again)
    return {"mode": "cli", "files": files, "runs": runs}


def p_c09(r):
    import copy
    files = {"bystander": junk(r)}
    for n in r.sample(BYSTANDERS, r.choice([0, 0, 3, len(BYSTANDERS)])):
        files[n] = junk(r)[:200]
    if r.random() < .3:
        files["out"] = junk(r)
    last = command(r, files, 0, bad=.03)
    if last.get("bad_args") == "missing input":
        last.pop("bad_args")
        files.setdefault("in", source(r, [], last["ifmt"]))
    runs = []
    orole = last["out_name"]
    irole = last.get("in_role")
    for _ in range(r.choice([1, 1, 2, 3])):
        a = copy.deepcopy(last)
        a["faults"] = [cli_fault(r, orole, irole, True, r.random() < .8)]
        runs.append(a)
        if r.random() < .15:
            # the crashed command had other options
            if a["tool"] == "compile":
                a["argv"].insert(0, "-N")
            elif a["tool"] == "convert" and not a.get("bad_args"):
                a["argv"].insert(0, "-O")
    runs.append(last)
    return {"mode": "cli", "files": files, "runs": runs}


def tidy(r, items):
    """Nearer to what the description language can express."""
    out = []
    arrays = r.random() < .4
    rid = [i for i in items if i[0] == "ReportID"]
    if rid:
        out.append(list(rid[0]))
    for k, i in enumerate(items):
        if i[0] == "StringIndex" and items[k + 1][0] == "Collection":
            continue
        if i[0] in ("Input", "Output", "Feature") and not i[1] & 3 and not arrays:
            i = [i[0], i[1] | 2, max(1, i[2])]
        out.append(i)
    return out


def expressible(r):
    """Items of a descriptor the description language can express."""
    from . import hidref
    for _ in range(8):
        if r.random() < .5:
            items = tree_as_items(r)
        else:
            items = [list(i) for i in gen.stream(r, delimiters=False, pushpop=r.choice([0, .2]))]
            if r.random() < .8:
                items = tidy(r, items)
        items = light(items, 600)
        try:
            hidref.expressible(items)
            return items
        except hidref.Outside:
            pass
    return tree_as_items(r)


def p_c12(r):
    """Tools feeding each other: descriptor -> (converter) -> decompiler ->
    decompiled script -> descriptor -> ..."""
    files = {"d0": source(r, expressible(r))}
    stages = []
    cur, fmt = "d0", files["d0"]["fmt"]
    todo = []
    for _ in range(r.choice([1, 1, 1, 2])):
        if r.random() < .3:
            todo.append("convert")
        todo += ["decompile", "script"]
    if r.random() < .2:
        todo.append("convert")
    pf = r.choice([0, 0, .3, .7])
    for k, tool in enumerate(todo):
        st = {"tool": tool, "argv": [], "reads": cur, "roles": {}, "chunks": {},
              "unbuf": False, "bs": r.choice([1, 16, 8192, 8192]), "attempts": []}
        argv = st["argv"]
        st["writes"] = "s%d.py" % k if tool == "decompile" else "d%d" % (k + 1)
        named_out = r.random() < .6
        irole = None
        if tool == "script":
            st["script"] = cur
        else:
            argv += ["-i", fmt]
        if tool != "decompile":
            fmt = r.choice(FMTS)
            st["ofmt"] = fmt
            argv += ["-o", fmt]
            if r.random() < .4:
                argv.append("-N" if tool == "script" else "-O")
        if tool != "script":
            if named_out or r.random() < .5:
                irole = "in"
                argv.append("@" + cur)
                st["roles"][cur] = "in"
            else:
                irole = "stdin"
                st["stdin_from"] = cur
        if named_out:
            argv.append("@" + st["writes"])
            st["roles"][st["writes"]] = "out"
        else:
            st["stdout_to"] = st["writes"]
        orole = "out" if named_out else "stdout"
        for role in (irole, orole):
            if role and r.random() < .5:
                st["chunks"][role] = chunks(r)
        while r.random() < pf and len(st["attempts"]) < 3:
            st["attempts"].append([cli_fault(r, orole, irole, False, r.random() < .4)])
        stages.append(st)
        cur = st["writes"]
    return {"mode": "chain", "files": files, "stages": stages}


def p_c14(r):
    """Operations writing C code, alone, after each other or at the same time."""
    p = r.choice([p_c01, p_c02, p_c03, p_c06, p_c07])(r)
    for s in p["sessions"]:
        if s["op"] != "decompile" and s.get("ofmt") != "code":
            s["ofmt"] = "code"
            s["snk"] = snk_spec(r, "code")
    p.pop("want_solo", None)
    return p


def expect(r, tree, line=0.0):
    """Comparison of a tree with an expected descriptor."""
    k = r.choice(["same", "same", "same", "flip", "flip", "cut", "cut1", "more", "more", "drop", "dup", "swap",
                  "item", "empty", "insert", "twice"])
    return {"op": "expect", "tree": tree, "ofmt": "binary", "snk": {"kind": "obj"},
            "edit": {"kind": k, "at": r.random(), "x": r.choice([0, 1, 2, 0x10, 0x80, 0xc0, 0xff, r.randrange(1, 256)]),
                     "n": r.randrange(1, 4)},
            "style": style(r, "code"), "faults": [line_fault(r)] if r.random() < line else []}


def p_c15(r):
    gran = r.choice([None, None, None, "line", "opcode"])
    limit = {None: 150, "line": 60, "opcode": 25}[gran]
    t = small_tree(r, limit)
    ss = []
    for k in range(r.choice([1, 1, 2, 3, 4] if gran is None else [2, 2, 3])):
        if r.random() < .15:
            t = small_tree(r, limit)
        if k and r.random() < .2:
            ss.append(compile_(r, .2, .1, t))
        else:
            ss.append(expect(r, t, .2))
            if k and ss[0]["op"] == "expect" and r.random() < .5:
                # the same layout as before
                ss[-1]["style"] = ss[0]["style"]
        ss[-1].pop("define", None)
        ss[-1].pop("late_build", None)
        if r.random() < .6 and t is ss[0]["tree"]:
            ss[-1]["share"] = 0
    if not gran:
        owner_changes(r, ss)
    p = {"mode": "api", "sessions": ss, "schedule": {"mode": "seq"}}
    if gran:
        scale = r.choice([3, 10, 50, 300]) * (4 if gran == "opcode" else 1)
        p["schedule"] = {"mode": "threads", "gran": gran, "cycle": r.random() < .6,
                         "start": r.randrange(len(ss)),
                         "gaps": [[1 + int(r.expovariate(1.0 / scale)), r.randrange(8)]
                                  for _ in range(r.choice([1, 3, 10]))]}
    return p


def own_names(run, files, mine, k):
    """Give a command files of its own in a shared directory."""
    names = {"in": "in%d" % k, "out": "out%d" % k}
    run["argv"] = ["@" + names[a[1:]] if a in ("@in", "@out") else a for a in run["argv"]]
    run["roles"] = {names["in"]: "in", names["out"]: "out"}
    run["stdin_name"] = "stdin%d" % k
    run["stdout_name"] = "stdout%d" % k
    run["desc_name"] = "desc%d.py" % k
    run["out_name"] = names["out"] if run["out_name"] == "out" else run["stdout_name"]
    if run.get("in_role") == "in":
        run["in_role"] = names["in"]
    for n, spec in mine.items():
        files[names[n]] = spec


def pipeline(r, files, k, pf):
    """Commands connected by pipes."""
    while True:
        mine = {}
        first = command(r, mine, 0, bad=0)
        if first["tool"] != "decompile" and first["out_name"] == "stdout" and not first.get("bad_args"):
            break
    dec = r.random() < .3
    if dec and first["tool"] == "compile":
        its = [list(i) for i in gen.tree_items(first["tree"])]
        dec = light(its) is its
    elif dec:
        # something the decompiler can write down in little time
        (first.get("stdin") or mine["in"])["items"] = light(
            tree_as_items(r) if r.random() < .6 else tame_device(r))
    own_names(first, files, mine, k)
    runs = [first]
    n = r.choice([1, 1, 2])
    fmt = first["ofmt"]
    for j in range(1, n + 1):
        tool = "decompile" if j == n and dec else "convert"
        run = {"tool": tool, "argv": ["-i", fmt], "faults": [], "unbuf": r.random() < .3, "chunks": {},
               "bs": r.choice([1, 16, 8192, 8192]), "in_role": "stdin", "ifmt": fmt, "out_name": "stdout"}
        if tool == "convert":
            fmt = run["ofmt"] = r.choice(FMTS)
            run["argv"] += ["-o", fmt]
            if r.random() < .4:
                run["argv"].append("-O")
        if j == n and r.random() < .5:
            run["argv"] += ["-", "@out"]
            run["out_name"] = "out"
        if r.random() < .4:
            run["chunks"]["stdin"] = chunks(r)
        own_names(run, files, {}, k + j)
        run["stdin_pipe"] = runs[-1]["stdout_pipe"] = "p%d" % (k + j)
        runs.append(run)
    for run in runs:
        if r.random() < pf:
            text = run["unbuf"] and (run.get("ofmt") != "binary" or run["tool"] == "decompile")
            run["faults"] = [cli_fault(r, "out" if run["out_name"].startswith("out") else "stdout",
                                       "stdin" if "stdin_pipe" in run else None, text, r.random() < .4)]
    return runs


BYSTANDERS = ["out.tmp", "out~", "out.bak", "out.new", "out.part", "in.bak", "in~", "tmp", ".out.swp", "out.lock",
              "hrdc.tmp", "desc", "descriptor.bin", "output", "in.tmp", "cache"]


def p_c16(r):
    """Commands at the same time in one directory."""
    files = {"bystander": junk(r)}
    runs = []
    pf = r.choice([0, 0, .3])
    kind = r.random()
    if kind < .35:
        runs += pipeline(r, files, 0, pf)
    n = 0 if kind < .25 else r.choice([2, 2, 3, 4]) if not runs else r.choice([1, 2])
    same = r.random() < .4
    first = None
    for _ in range(n):
        k = len(runs)
        mine = {}
        if same and first and r.random() < .8:
            # the same input, another output
            import copy
            run = copy.deepcopy(first[0])
            if run["tool"] != "decompile" and r.random() < .5 and not run.get("bad_args"):
                for o in ("-o", "--output-format"):
                    while o in run["argv"]:
                        j = run["argv"].index(o)
                        del run["argv"][j:j + 2]
                run["ofmt"] = r.choice(FMTS)
                run["argv"][:0] = ["-o", run["ofmt"]]
            run["argv"] = ["@out%d" % k if a.startswith("@out") else a for a in run["argv"]]
            if run["out_name"].startswith("out"):
                run["roles"] = {("out%d" % k if x.startswith("out") else x): y for x, y in run["roles"].items()}
                run["out_name"] = "out%d" % k
            else:
                run["out_name"] = "stdout%d" % k
            run["stdin_name"], run["stdout_name"], run["desc_name"] = "stdin%d" % k, "stdout%d" % k, "desc%d.py" % k
            run["faults"] = []
        else:
            run = command(r, mine, 0, bad=.05)
            own_names(run, files, mine, k)
            first = first or (run,)
            if r.random() < .2:
                files["out%d" % k] = junk(r)
        if r.random() < pf:
            text = run["unbuf"] and (run.get("ofmt") != "binary" or run["tool"] == "decompile")
            irole = run.get("in_role") and ("in" if run["in_role"].startswith("in") else "stdin")
            run["faults"] = [cli_fault(r, "out" if run["out_name"].startswith("out") else "stdout",
                                       irole, text, r.random() < .4)]
        runs.append(run)
    gran = "line" if r.random() < .4 else "io"
    scale = r.choice([1, 2, 5, 20]) * (20 if gran == "line" else 1)
    for run in runs:
        run["gran"] = gran
    return {"mode": "multi", "files": files, "runs": runs,
            "schedule": {"start": r.randrange(8), "cycle": True, "capacity": r.choice([1, 7, 64, 4096, 65536, 65536]),
                         "gaps": [[1 + int(r.expovariate(1.0 / scale)), r.randrange(8)]
                                  for _ in range(r.choice([1, 3, 10, 40]))]}}


GEN = {"C16": p_c16, "C14": p_c14, "C15": p_c15, "C12": p_c12, "C01": p_c01, "C02": p_c02, "C03": p_c03, "C04": p_c04, "C05": p_c05,
       "C06": p_c06, "C07": p_c07, "C08": p_c08, "C09": p_c09}


def make(prop, base_seed, index):
    r = random.Random("%s/%d/%d" % (prop, base_seed, index))
    p = GEN[prop](r)
    if r.random() < .06:
        p["O"] = True
    p["prop"] = prop
    p["seed"] = [base_seed, index]
    return p
