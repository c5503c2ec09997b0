"""Structural minimisation of a failing plan."""
import copy
import time


def lists_of(plan):
    """Paths of shrinkable lists, most effective first."""
    out = []
    if "sessions" in plan:
        out.append(("sessions",))
        for i, s in enumerate(plan["sessions"]):
            out.append(("sessions", i, "faults"))
            if "in" in s:
                out.append(("sessions", i, "in", "items"))
            if "items" in s:
                out.append(("sessions", i, "items"))
            if "via" in s:
                out.append(("sessions", i, "via"))
    if "stages" in plan:
        out.append(("stages",))
        for i, s in enumerate(plan["stages"]):
            out.append(("stages", i, "attempts"))
        out.append(("files", "d0", "items"))
    if "runs" in plan:
        out.append(("runs",))
        for i, s in enumerate(plan["runs"]):
            out.append(("runs", i, "faults"))
            if isinstance(s.get("stdin"), dict):
                out.append(("runs", i, "stdin", "items"))
        for n, f in plan["files"].items():
            if isinstance(f, dict):
                out.append(("files", n, "items"))
    sp = plan.get("schedule") or {}
    for k in ("gaps", "order", "at"):
        if k in sp:
            out.append(("schedule", k))
    return out


def get(p, path):
    for k in path:
        p = p[k]
    return p


def put(plan, path, v):
    p = copy.deepcopy(plan)
    get(p, path[:-1])[path[-1]] = v
    return p


def trees(plan):
    if "sessions" in plan:
        for i, s in enumerate(plan["sessions"]):
            if "tree" in s:
                yield ("sessions", i, "tree")
    for i, s in enumerate(plan.get("runs", ())):
        if "tree" in s:
            yield ("runs", i, "tree")


def tree_variants(t):
    def nodes(n, path=()):
        yield path, n
        for i, m in enumerate(n.get("members", ())):
            yield from nodes(m, path + ("members", i))
    for path, n in list(nodes(t)):
        if path:
            c = copy.deepcopy(t)
            del get(c, path[:-1])[path[-1]]
            yield c
            if n.get("members"):
                c = copy.deepcopy(t)
                get(c, path[:-1])[path[-1]:path[-1] + 1] = n["members"]
                yield c
        for k in ("flags", "pmin", "pmax", "unit", "exp", "string", "designator", "count",
                  "alignment"):
            if k in n and not (k == "flags" and n[k] & 1):
                c = copy.deepcopy(t)
                del get(c, path)[k]
                yield c


def set_tree(plan, path, v):
    """Sessions sharing a tree keep sharing it."""
    p = copy.deepcopy(plan)
    old = get(plan, path)
    group = get(plan, path[:-1]).get("share")
    for q in trees(plan):
        if q == path or group is not None and get(plan, q[:-1]).get("share") == group \
                and get(plan, q) == old:
            get(p, q[:-1])[q[-1]] = copy.deepcopy(v)
    return p


SIMPLE = [("src", {"kind": "obj"}), ("snk", {"kind": "obj"}), ("chunks", {}), ("unbuf", False),
          ("bs", 8192), ("define", None), ("late_build", False), ("opt", [0, 100])]


def minimise(plan, fails, budget=25.0):
    """fails(plan) -> bool (same violation class)."""
    end = time.monotonic() + budget
    tried = [0]

    def ok(p):
        if time.monotonic() > end:
            return False
        tried[0] += 1
        try:
            return fails(p)
        except Exception:
            return False

    changed = True
    while changed and time.monotonic() < end:
        changed = False
        for path in lists_of(plan):
            try:
                lst = get(plan, path)
            except (KeyError, IndexError):
                continue
            size = max(1, len(lst) // 2)
            while size >= 1:
                i = 0
                while i < len(lst):
                    cand = lst[:i] + lst[i + size:]
                    if path in (("sessions",), ("runs",), ("stages",)) and not cand:
                        break
                    q = put(plan, path, cand)
                    if ok(q):
                        plan, lst = q, cand
                        changed = True
                    else:
                        i += size
                size //= 2
        for path in list(trees(plan)):
            again = True
            while again and time.monotonic() < end:
                again = False
                for v in tree_variants(get(plan, path)):
                    q = set_tree(plan, path, v)
                    if ok(q):
                        plan = q
                        again = changed = True
                        break
        for group in ("sessions", "runs", "stages"):
            for i, s in enumerate(plan.get(group, ())):
                for k, v in SIMPLE:
                    if k in s and s[k] and s[k] != v:
                        q = put(plan, (group, i, k), v)
                        if ok(q):
                            plan = q
                            changed = True
                if isinstance(s.get("in"), dict) and s["in"].get("style"):
                    q = put(plan, (group, i, "in", "style"), {})
                    if ok(q):
                        plan = q
                        changed = True
        sp = plan.get("schedule") or {}
        if sp.get("cycle"):
            q = put(plan, ("schedule", "cycle"), False)
            if ok(q):
                plan = q
                changed = True
    return plan, tried[0]
