"""Judges observations of a run against the properties.

Each judge returns a list of (class, detail).  Nothing here imports the
package under test; expectations come from the reference model (hidref, gen)
or from a fault-free solo run of the same operation.
"""
import re

from . import engine, gen, hbuild, hidref, hut, render


def hard(fired):
    """Faults that must surface (benign short transfers excluded, and transfers
    that would block: whoever has a buffer may try again later)."""
    return [f for f in fired if not f.endswith((".short", ".again"))]


def struck(fired):
    """Faults that excuse a failure."""
    return [f for f in fired if not f.endswith(".short")]


def input_items(spec):
    """-> (items, None) or (leading items, reason it must be refused)"""
    data = render.render(spec)
    try:
        blob = hidref.to_bytes(spec["fmt"], data)
    except UnicodeDecodeError:
        return [], "undecodable"
    except hidref.Invalid:
        return [], "invalid token"
    try:
        return hidref.decode(blob), None
    except hidref.Torn as e:
        return e.items, "torn"
    except hidref.Invalid as e:
        return e.items, "invalid"


def output_items(fmt, data):
    """-> items or raises Torn/Invalid"""
    try:
        return hidref.decode(hidref.to_bytes(fmt, data))
    except UnicodeDecodeError:
        e = hidref.Invalid("undecodable")
        e.items = []
        raise e


def short(x, n=300):
    x = str(x)
    return x if len(x) <= n else x[:n] + "..."


def first_diff(a, b):
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else "(nothing)"
        y = b[i] if i < len(b) else "(nothing)"
        if x != y:
            return "#%d: expected %s, got %s" % (i, x, y)
    return "none"


def same_meaning(want, got):
    """want/got: items.  None if equal, else description.  Raises Skip when
    the wanted items are outside the domain (not well formed)."""
    try:
        w = hidref.meaning(want)
    except hidref.HostError as e:
        raise Skip(str(e))
    try:
        g = hidref.meaning(got)
    except hidref.HostError as e:
        return "output is not a well-formed descriptor: %s" % e
    if w[0] == w[1]:
        for k in (0, 1):
            if w[k] != g[k]:
                return "meaning differs, event " + first_diff(w[k], g[k])
        return None
    # ambiguous input (a page changes between a usage and its main item):
    # it must keep its meaning for the hosts of one convention at least
    if w[0] != g[0] and w[1] != g[1]:
        return "meaning differs, event " + first_diff(w[0], g[0])
    return None


class Skip(Exception):
    pass


# --------------------------------------------------------------- single session

def delivered(s, res):
    """Check the output of a session that reported success.
    -> None or (class, detail)"""
    if s["op"] == "decompile":
        return None
    try:
        got = output_items(s["ofmt"], res["data"])
    except (hidref.Torn, hidref.Invalid) as e:
        return "garbled-output", "%s output does not decode: %s: %s" % (
            s["ofmt"], type(e).__name__, e)
    if s["op"] == "compile":
        want = gen.tree_items(s["tree"])
    elif s["op"] == "feed":
        want = [tuple(i) for i in s["items"]]
    else:
        want, why = input_items(s["in"])
        if why:
            return "accepted-bad-input", "input is %s but success was reported" % why
    if s["op"] in ("convert", "feed") and not s.get("opt"):
        if hidref.nv(want) != hidref.nv(got):
            return "items-differ", first_diff(hidref.nv(want), hidref.nv(got))
        return None
    try:
        d = same_meaning(want, got)
    except Skip:
        return None
    return ("meaning-differs", d) if d else None


def bad_input(s):
    return "in" in s and input_items(s["in"])[1] is not None


def in_domain(s):
    """Is acceptance (success without a fault) guaranteed?"""
    if s["op"] == "decompile" or bad_input(s):
        return False
    if s["op"] in ("convert", "feed") and s.get("opt"):
        want = input_items(s["in"])[0] if s["op"] == "convert" else [tuple(i) for i in s["items"]]
        try:
            hidref.meaning(want)
        except hidref.HostError:
            return False
    return True


def judge_delivery(plan, obs, hit):
    """Success => right output; no fault and valid => success; terminates."""
    v = []
    if obs["how"] == "hang":
        return [("no-progress", "the run did not end within its CPU budget")]
    if obs["how"] == "dead":
        hit("died")
        return v
    for k, (s, r) in enumerate(zip(obs["resolved"], obs["results"])):
        if s["op"] == "decompile":
            continue
        if r["status"] == "ok":
            hit("success")
            d = delivered(s, r)
            if d:
                v.append((d[0], "session %d: %s" % (k, d[1])))
        elif r["status"] == "exc":
            hit("failure")
            if not struck(r["fired"]) and in_domain(s):
                v.append(("refused", "session %d: valid %s failed without a fault: %s: %s"
                          % (k, s["op"], r["exc"], r["msg"])))
    return v


# ------------------------------------------------------------------ properties

def c01(plan, obs, hit):
    return judge_delivery(plan, obs, hit)


c02 = c03 = c01


def c04_cli(plan, obs, hit):
    v = []
    for k, (run, r, b) in enumerate(zip(plan["runs"], obs["runs"], obs["base"])):
        if "dead" in (r["how"], b["how"]):
            hit("died")
            continue
        if "hang" in (r["how"], b["how"]):
            v.append(("no-progress", "command %d did not end" % k))
            continue
        what = "command %d (%s %s)" % (k, run["tool"], " ".join(run["argv"]))
        h = hard(r["fired"])
        for x in h:
            hit("fault:" + x.split(".", 1)[-1])
        if h and r["code"] == 0:
            v.append(("swallowed", "%s exits 0 although %s struck%s"
                      % (what, h[0], " in " + r["strike"] if r["strike"] else "")))
        if b["code"] != 0:
            continue
        want, got = cli_out(run, b["files"]) or b"", cli_out(run, r["files"]) or b""
        if r["code"] != 0 and got == obs["before"].get(run["out_name"]):
            continue     # output not opened yet
        if got != want[:len(got)]:
            i = next(i for i in range(len(got)) if got[i:i + 1] != want[i:i + 1])
            v.append(("not-a-prefix", "%s: delivered bytes are no prefix of the fault-free output, at byte %d: %s"
                      % (what, i, short(repr(got[i:i + 60])))))
        elif r["code"] == 0 and got != want:
            v.append(("incomplete", "%s exits 0 with %d of %d bytes delivered" % (what, len(got), len(want))))
        elif h and len(got) < len(want):
            hit("partial")
    return v


def c04(plan, obs, hit):
    if plan["mode"] == "cli":
        return c04_cli(plan, obs, hit)
    v = []
    if obs["how"] == "dead":
        # the interpreter itself was killed by a signal: nothing to judge
        hit("died")
        return v
    if obs["how"] == "hang":
        return [("no-progress", "the run did not end within its CPU budget")]
    for k, (s, r, b) in enumerate(zip(obs["resolved"], obs["results"], obs["base"])):
        h = hard(r["done_fired"])
        if h:
            hit("fault:" + h[0].split(".", 1)[-1])
            if r["status"] == "ok":
                v.append(("swallowed", "session %d (%s) reported success although %s struck%s"
                          % (k, s["op"], h[0], " in " + r["strike"] if r["strike"] else "")))
            elif h[0].endswith(".kbd") and len(h) == 1 and r["exc"] != "KeyboardInterrupt":
                v.append(("interrupt-lost", "session %d (%s): an interruption%s reached the caller as %s: %s"
                          % (k, s["op"], " in " + r["strike"] if r["strike"] else "", r["exc"], r["msg"])))
        if b["status"] in ("ok", "exc", "abandoned") and (b["status"] == "ok" or not bad_input(s)):
            if r["data"] != b["data"][:len(r["data"])]:
                v.append(("not-a-prefix", "session %d (%s): delivered bytes are no prefix of the fault-free output, at byte %d"
                          % (k, s["op"], next(i for i in range(len(r["data"])) if r["data"][i:i+1] != b["data"][i:i+1]))))
            elif r["status"] == "ok" and r["data"] != b["data"]:
                v.append(("incomplete", "session %d (%s): success reported with %d of %d bytes delivered"
                          % (k, s["op"], len(r["data"]), len(b["data"]))))
            elif h and len(r["data"]) < len(b["data"]):
                hit("partial")
    return v


def c05(plan, obs, hit):
    v = []
    if obs["how"] == "dead":
        # the interpreter itself was killed by a signal: nothing to judge
        hit("died")
        return v
    if obs["how"] == "hang":
        return [("no-progress", "the run did not end within its CPU budget")]
    for k, (s, r) in enumerate(zip(obs["resolved"], obs["results"])):
        if "in" not in s:
            continue
        lead, why = input_items(s["in"])
        if s["op"] == "decompile" and not why:
            depth = 0
            for it in lead:
                depth += {"Collection": 1, "EndCollection": -1}.get(it[0], 0)
            if depth > 0:
                why = "open collection"
        if why:
            hit("bad:" + why)
            if r["status"] == "ok":
                v.append(("accepted", "session %d (%s %s): input is %s after %d good items but success was reported"
                          % (k, s["op"], s["in"]["fmt"], why, len(lead))))
        if s["op"] == "decompile" or struck(r["fired"]):
            continue
        if not s.get("opt"):
            try:
                got = output_items(s["ofmt"], r["data"])
            except (hidref.Torn, hidref.Invalid) as e:
                v.append(("garbled-output", "session %d: output does not decode: %s" % (k, e)))
                continue
            a, b = hidref.nv(lead), hidref.nv(got)
            if b != a[:len(b)]:
                v.append(("altered", "session %d: delivered items are not those preceding the damage: %s"
                          % (k, first_diff(a, b))))
            elif r["status"] == "ok" and a != b:
                v.append(("lost", "session %d: success reported but items lost: %s" % (k, first_diff(a, b))))
        else:
            i = obs["intact"][k]
            if i and i["status"] == "ok":
                if r["data"] != i["data"][:len(r["data"])]:
                    v.append(("altered", "session %d (optimised): delivered bytes do not stem from the items preceding the damage"
                              % k))
                d = None
                if (s["in"].get("damage") or {}).get("kind") == "cut":
                    # a true prefix of a well-formed descriptor
                    try:
                        d = same_meaning(lead, output_items(s["ofmt"], i["data"]))
                    except Skip:
                        pass
                    except (hidref.Torn, hidref.Invalid) as e:
                        d = str(e)
                if d:
                    v.append(("altered", "session %d (optimised): the items preceding the damage lost their meaning: %s" % (k, d)))
    return v


def tokens(s, data):
    try:
        return hidref.to_bytes(s["ofmt"], data)
    except (hidref.Invalid, UnicodeDecodeError):
        return data


def c06(plan, obs, hit):
    v = []
    if obs["how"] == "dead":
        # the interpreter itself was killed by a signal: nothing to judge
        hit("died")
        return v
    if obs["how"] == "hang":
        return [("no-progress", "the run did not end within its CPU budget")]
    if obs.get("deadlock"):
        v.append(("deadlock", "all operations wait for each other"))
    defines = any(s.get("define") for s in plan["sessions"])
    for k, (s, r, b) in enumerate(zip(obs["resolved"], obs["results"], obs["solo"])):
        if b["status"] in ("hang", "dead", "crash"):
            continue
        line = [f for f in s["faults"] if f["op"] == "line"]
        if line:
            # struck at an instruction: only what it delivered can be compared
            full = obs["base"][k]
            if not defines and r["data"] != full["data"][:len(r["data"])]:
                v.append(("cross-talk", "operation %d (%s) delivered bytes its solo run never would" % (k, s["op"])))
            continue
        a, c = b["data"], r["data"]
        if defines and s["op"] != "decompile":
            a, c = tokens(s, a), tokens(s, c)
        if r["status"] != b["status"] or r["exc"] != b["exc"]:
            v.append(("outcome-differs", "operation %d (%s): alone %s, here %s (%s)"
                      % (k, s["op"], b["exc"] or b["status"], r["exc"] or r["status"], r.get("msg"))))
        elif a != c:
            if defines and struck(r["fired"]):
                continue
            i = next((i for i in range(min(len(a), len(c))) if a[i] != c[i]), min(len(a), len(c)))
            v.append(("cross-talk", "operation %d (%s): output differs from its solo run at byte %d: %r instead of %r"
                      % (k, s["op"], i, bytes(c[max(0, i - 20):i + 20]), bytes(a[max(0, i - 20):i + 20]))))
        if r["status"] == "ok":
            hit("success")
            # absolute check too: both runs may be wrong in the same way only
            # if the operation alone is wrong, which is C01-C03's matter
    return v


c07 = c06


# -------------------------------------------------------------------- processes

def cli_in(plan, run):
    """The input spec a run reads, or None."""
    src = run.get("in_role")
    if src == "stdin":
        return run.get("stdin")
    if src:
        return plan["files"].get(src)
    return None


def cli_out(run, files):
    return files.get(run["out_name"]) if run["out_name"] != "stdout" else files.get("stdout")


def expect_failure(plan, run):
    if run.get("bad_args"):
        return run["bad_args"]
    if run["tool"] != "compile":
        spec = cli_in(plan, run)
        if spec is None:
            return "missing input"
        spec = dict(spec, fmt=run["ifmt"])
        items, why = input_items_raw(plan, run, spec)
        if why:
            return why
        if run["tool"] == "decompile":
            depth = sum({"Collection": 1, "EndCollection": -1}.get(i[0], 0) for i in items)
            if depth > 0:
                return "open collection"
    return None


def input_items_raw(plan, run, spec):
    return input_items(spec)


def output_right(plan, run, data):
    """Reference judgement of the complete output of a run. None if right."""
    if run["tool"] == "decompile":
        return None
    try:
        got = output_items(run["ofmt"], data)
    except (hidref.Torn, hidref.Invalid) as e:
        return "output does not decode: %s" % e
    if run["tool"] == "compile":
        want = gen.tree_items(run["tree"])
    else:
        want, why = input_items(dict(cli_in(plan, run), fmt=run["ifmt"]))
        if why:
            return "input was " + why
        if not run.get("opt"):
            if hidref.nv(want) != hidref.nv(got):
                return "items differ: " + first_diff(hidref.nv(want), hidref.nv(got))
            return None
    try:
        return same_meaning(want, got)
    except Skip:
        return None


def cli_domain(plan, run):
    """Fault-free run must exit 0."""
    if expect_failure(plan, run):
        return False
    if run["tool"] == "decompile":
        try:
            hidref.expressible(input_items(dict(cli_in(plan, run), fmt=run["ifmt"]))[0])
        except hidref.Outside:
            return False
    if run["tool"] == "convert" and run.get("opt"):
        want, why = input_items(dict(cli_in(plan, run), fmt=run["ifmt"]))
        try:
            hidref.meaning(want)
        except hidref.HostError:
            return False
    return True


def c08(plan, obs, hit):
    v = []
    for k, (run, r, b) in enumerate(zip(plan["runs"], obs["runs"], obs["base"])):
        if "dead" in (r["how"], b["how"]):
            hit("died")
            continue
        if "hang" in (r["how"], b["how"]):
            v.append(("no-progress", "command %d did not end" % k))
            continue
        if r["how"] == "crash":
            continue
        what = "command %d (%s %s)" % (k, run["tool"], " ".join(run["argv"]))
        why = expect_failure(plan, run)
        h = hard(r["fired"])
        for x in h:
            hit("fault:" + x)
        out = cli_out(run, r["files"])
        if r["code"] == 0:
            hit("exit0")
            if why:
                v.append(("false-success", "%s exits 0 although: %s" % (what, why)))
                continue
            if h:
                v.append(("false-success", "%s exits 0 although %s struck%s"
                          % (what, h[0], " in " + r["strike"] if r["strike"] else "")))
                continue
            if out is None:
                v.append(("no-output", "%s exits 0 without output" % what))
                continue
            d = output_right(plan, run, out)
            if d:
                v.append(("wrong-output", "%s exits 0: %s" % (what, d)))
            elif b["code"] == 0 and out != cli_out(run, b["files"]):
                v.append(("wrong-output", "%s exits 0 but its output (%d bytes) is not the fault-free one (%d bytes)"
                          % (what, len(out), len(cli_out(run, b["files"])))))
        else:
            hit("exit-nonzero")
            if not struck(r["fired"]) and not why and cli_domain(plan, run):
                v.append(("false-failure", "%s exits %s without a reason: %s %s"
                          % (what, r["code"], r["exc"], short(r["stderr"], 120))))
    return v


def c09(plan, obs, hit):
    v = []
    out = plan["runs"][-1]["out_name"]
    outs = {"stdin", "stdout"} | {r["out_name"] for r in plan["runs"]}
    crashed = False
    for k, r in enumerate(obs["runs"]):
        if r["how"] == "dead":
            hit("died")
            return v
        if r["how"] == "hang":
            return [("no-progress", "command %d did not end" % k)]
        if r["how"] == "crash":
            hit("crash")
            crashed = True
        for n, d in obs["before"].items():
            if n not in outs and r["files"].get(n) != d:
                v.append(("bystander", "command %d (%s) modified %s" % (k, plan["runs"][k]["tool"], n)))
                return v
    last, base = obs["runs"][-1], obs["base"][-1]
    run = plan["runs"][-1]
    if run["faults"]:
        return v
    if base["how"] == "dead":
        hit("died")
        return v
    if base["how"] == "hang":
        return [("no-progress", "command did not end")]
    what = "rerun (%s %s)" % (run["tool"], " ".join(run["argv"]))
    new = set(base["files"]) - set(obs["before"]) - outs - {"desc.py"}
    if base["code"] == 0 and new:
        v.append(("bystander", "%s without a fault leaves behind %s" % (run["tool"], ", ".join(sorted(new)))))
    if last["code"] != base["code"]:
        v.append(("rerun-status", "%s exits %s, a first run exits %s: %s"
                  % (what, last["code"], base["code"], last["exc"])))
    elif base["code"] == 0:
        a, c = cli_out(run, base["files"]), cli_out(run, last["files"])
        if a != c:
            v.append(("rerun-output", "%s leaves %s bytes, a first run %s bytes, different content"
                      % (what, None if c is None else len(c), None if a is None else len(a))))
        else:
            d = output_right(plan, run, c)
            if d:
                v.append(("rerun-output", "%s: %s" % (what, d)))
        if crashed:
            hit("rerun-after-crash")
    return v


def c12(plan, obs, hit):
    items, why = input_items(plan["files"]["d0"])
    if why:
        return []
    try:
        hidref.expressible(items)
    except hidref.Outside as e:
        hit("outside:" + str(e))
        return []
    want = hidref.essence(items)
    v = []
    have = {"d0"}
    for k, st in enumerate(plan["stages"]):
        runs = [r for r, j in zip(obs["runs"], obs["stage"]) if j == k]
        what = "stage %d (%s %s)" % (k, st["tool"], " ".join(st["argv"]))
        if st["reads"] not in have or not runs:
            break  # a shortened chain
        last = runs[-1]
        for r in runs:
            for x in hard(r["fired"]):
                hit("fault:" + x)
        if last["how"] == "dead":
            hit("died")
            break
        if last["how"] == "hang":
            return [("no-progress", "%s did not end" % what)]
        if last["code"] != 0:
            v.append(("stage-fails", "%s exits %s: %s %s" % (what, last["code"], last["exc"], short(last["stderr"], 120))))
            break
        have.add(st["writes"])
        hit("stage:" + st["tool"])
        if len(runs) > 1:
            hit("retried")
        if st["tool"] == "decompile":
            continue
        try:
            got = output_items(st["ofmt"], last["files"].get(st["writes"]) or b"")
            e = hidref.essence(got)
        except (hidref.Torn, hidref.Invalid, hidref.HostError) as x:
            v.append(("chain-garbled", "after %s: %s: %s" % (what, type(x).__name__, x)))
            break
        if e != want:
            v.append(("chain-meaning", "after %s the descriptor has another meaning: %s" % (what, first_diff(want, e))))
            break
    return v


# -------------------------------------------------------------------- comments

LINE = re.compile(r"^\s*((?:0x[0-9a-fA-F]{2}\s*,\s*)+)//( *)(\S.*?)\s*$")
COMMENT = re.compile(r"^(\w+)(?: \((.*)\))?$")
FLAG_BITS = {n: b for b, n in hbuild.FLAGS.items()}
FLAG_BITS.update((n, 0) for n in hbuild.ZERO_FLAGS)
KINDS = ["Physical", "Application", "Logical", "Report", "NamedArray", "UsageSwitch", "UsageModifier"]
UNIT_VALUES = {n: v for v, n in hbuild.UNITS.items()}
UNIT_VALUES.update(Second=0x1000, Ampere=0x100000, Candela=0x1000000)
COUNTED = {"Button": 0x90000, "Ordinal": 0xa0000}


def number(t):
    try:
        return int(t, 0)
    except ValueError:
        return None


def usage_value(t):
    """Full name of a usage -> value or None"""
    m = re.match(r"^(?:button|ordinal)\.(Button|Ordinal)\((\d+)\)$", t)
    if m:
        return COUNTED[m.group(1)] + int(m.group(2))
    return hut.VALUES.get(t)


def says(name, value, size, t, page):
    """Does text t denote the value of this item?"""
    if t is None:
        return value == 0
    n = number(t)
    if n is not None:
        if name.startswith("Usage") and name != "UsagePage" and value >> 16 == 0 and page is not None \
                and n >> 16:
            return n == (page << 16 | value)
        return n == value
    if name in hidref.DATA:
        bits = 0
        for w in t.split("|"):
            if w.strip() not in FLAG_BITS:
                return False
            bits |= FLAG_BITS[w.strip()]
        return bits == value & 0x1ff
    if name == "Collection":
        return t in KINDS and KINDS.index(t) == value
    if name == "Unit":
        return UNIT_VALUES.get(t) == value
    if name == "UsagePage":
        return t in hut.PAGE_NAMES.get(value, ())
    if name in ("Usage", "UsageMinimum", "UsageMaximum"):
        full = usage_value(t)
        if full is not None:
            return full == value or full >> 16 == page and full & 0xffff == value
        if value >> 16 or page not in hut.PAGE_NAMES:
            return False
        return usage_value("%s.%s" % (hut.PAGE_NAMES[page][1], t)) == (page << 16 | value)
    return False


def page_moves(s):
    """An input for the optimiser with a page change between a usage and its
    main item: whether the page before or after it counts is a matter of convention."""
    if not (s.get("opt") or any(x.get("opt") for x in s.get("via") or ())):
        return False
    items = input_items(s["in"])[0] if "in" in s else s.get("items") or ()
    pending = False
    for name, *_ in items:
        kind = hidref.BY_NAME[name][0]
        if kind == 2 and name.startswith("Usage"):
            pending = True
        elif kind == 0:
            pending = False
        elif pending and name in ("UsagePage", "Pop"):
            return True
    return False


def c14(plan, obs, hit):
    v = []
    if obs["how"] == "dead":
        hit("died")
        return v
    if obs["how"] == "hang":
        return [("no-progress", "the run did not end within its CPU budget")]
    for k, (s, r) in enumerate(zip(obs["resolved"], obs["results"])):
        if s.get("ofmt") != "code" or s["op"] == "decompile":
            continue
        moved = page_moves(s)
        depth, low = 0, False
        page, stack = 0, []
        rows = r["data"].decode("utf-8", "replace").split("\n")
        for row in rows[:-1]:
            m = LINE.match(row)
            where = "session %d (%s): line %r" % (k, s["op"], row.strip())
            if not m:
                v.append(("no-comment", where + " is not a commented item"))
                break
            try:
                items = hidref.decode(bytes(int(x, 16) for x in m.group(1).split(",") if x.strip()))
            except (hidref.Torn, hidref.Invalid):
                items = []
            if len(items) != 1:
                v.append(("no-comment", where + " does not hold one item"))
                break
            name, value, size = items[0]
            c = COMMENT.match(m.group(3))
            if not c or c.group(1) != name:
                v.append(("wrong-comment", "%s: the item is %s" % (where, name)))
                break
            if not (moved and name.startswith("Usage") and name != "UsagePage") \
                    and not says(name, value, size, c.group(2), page):
                v.append(("wrong-comment", "%s: the value is %d, page 0x%x" % (where, value, page or 0)))
                break
            if name == "EndCollection":
                depth -= 1
            low = low or depth < 0
            if not low and len(m.group(2)) != 1 + 4 * depth:
                v.append(("wrong-depth", "%s: indented by %d at depth %d" % (where, len(m.group(2)) - 1, depth)))
                break
            if name == "Collection":
                depth += 1
            elif name == "UsagePage":
                page = value
            elif name == "Push":
                stack.append(page)
            elif name == "Pop" and stack:
                page = stack.pop()
            hit("line:" + name)
            if c.group(2) is not None and number(c.group(2)) is None:
                hit("named:" + name)
    return v


def c15(plan, obs, hit):
    v = []
    if obs["how"] == "dead":
        hit("died")
        return v
    if obs["how"] == "hang":
        return [("no-progress", "the run did not end within its CPU budget")]
    if obs.get("deadlock"):
        v.append(("deadlock", "all operations wait for each other"))
    for k, (s, r) in enumerate(zip(obs["resolved"], obs["results"])):
        if s["op"] != "expect" or s["equal"] is None:
            continue
        what = "comparison %d (%s)" % (k, s["edit"]["kind"])
        if hard(r["done_fired"]):
            hit("fault")
            if r["status"] == "ok":
                v.append(("swallowed", "%s passed although %s struck" % (what, hard(r["done_fired"])[0])))
            continue
        hit("equal" if s["equal"] else "different")
        if s["equal"] and r["status"] != "ok":
            v.append(("refused", "%s fails although the descriptor is the expected one: %s: %s"
                      % (what, r["exc"], r["msg"])))
        elif not s["equal"] and r["status"] == "ok":
            v.append(("accepted", "%s passes although the descriptor is not the expected one" % what))
    return v


def bare(data):
    """Without the addresses of objects shown in diagnostics."""
    return data and re.sub(rb" object at 0x[0-9a-f]+", b" object", data)


def c16(plan, obs, hit):
    v = []
    runs, res = plan["runs"], obs["runs"]
    if any(r["how"] == "dead" for r in res + obs["base"] + [s for s in obs["solo"] if s]):
        hit("died")
        return v
    if obs["deadlock"]:
        return [("no-progress", "the commands do not end: %s" % obs["deadlock"])]
    for k, r in enumerate(res):
        if r["how"] == "hang" or obs["base"][k]["how"] == "hang":
            return [("no-progress", "command %d did not end" % k)]
        for x in hard(r["fired"]):
            hit("fault:" + x)
    outs = {n for r in runs for n in (r["out_name"], r["stdin_name"], r["stdout_name"], r["desc_name"])}
    for n, d in obs["before"].items():
        if n not in outs and res and res[0]["files"].get(n) != d:
            v.append(("bystander", "%s was modified" % n))
    group = {}
    for k, run in enumerate(runs):
        what = "command %d (%s %s)" % (k, run["tool"], " ".join(run["argv"]))
        a = run.get("stdin_pipe")
        b = run.get("stdout_pipe")
        if a or b:
            g = group.get(a) or []
            g.append(k)
            if b:
                group[b] = g
            continue
        r, s = res[k], obs["solo"][k]
        hit("alone")
        if (r["code"], r["how"]) != (s["code"], s["how"]):
            v.append(("status", "%s ends %s (%s), alone it ends %s (%s)"
                      % (what, r["code"], r["exc"], s["code"], s["exc"])))
        elif bare(r["files"].get(run["out_name"])) != bare(s["files"].get(run["out_name"])):
            v.append(("output", "%s leaves %s in %s, alone %s" % (
                what, short(repr(r["files"].get(run["out_name"]))), run["out_name"],
                short(repr(s["files"].get(run["out_name"]))))))
    seen = set()
    for g in group.values():
        if id(g) in seen:
            continue
        seen.add(id(g))
        first, last = runs[g[0]], runs[g[-1]]
        if first.get("stdin_pipe") or last.get("stdout_pipe"):
            continue     # part of a pipeline, left by minimisation
        what = " | ".join("%s %s" % (runs[k]["tool"], " ".join(runs[k]["argv"])) for k in g)
        hurt = [x for k in g for x in struck(res[k]["fired"])]
        good = all(obs["base"][k]["code"] == 0 for k in g)
        hit("pipeline")
        if all(res[k]["code"] == 0 for k in g):
            hit("pipeline-ok")
            want = obs["base"][g[-1]]["files"].get(last["out_name"])
            got = res[g[-1]]["files"].get(last["out_name"])
            if not good:
                v.append(("pipe-status", "%s succeeds, not so one after another" % what))
            elif got != want:
                v.append(("pipe-output", "%s: output differs from that through files%s" % (
                    what, " although all succeed and %s struck" % hurt[0] if hurt else "")))
        elif good and not hurt:
            v.append(("pipe-status", "%s: exits %s without a fault: %s" % (
                what, [res[k]["code"] for k in g], [res[k]["exc"] for k in g])))
    return v


JUDGES = {"C16": c16, "C14": c14, "C15": c15, "C12": c12, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06,
          "C07": c07, "C08": c08, "C09": c09}


def judge(plan, obs, hit=lambda x: None):
    return JUDGES[plan["prop"]](plan, obs, hit)
