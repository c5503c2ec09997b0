"""Executes plans: forks simulated processes, resolves relative fault
positions, collects observations.  Contains no property logic."""
import copy
import gc
import hashlib
import json
import os
import pickle
import re
import resource
import select
import shutil
import signal
import sys
import tempfile
import time

from . import api, cli, render, world

CPU_LIMIT = 60       # seconds of CPU for one simulated process (normal: ~10 ms)
WALL_LIMIT = 240


def scratch_base():
    for d in ("/dev/shm", tempfile.gettempdir()):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return "."


SCRATCH = None


def fork_call(fn):
    """Run fn in a forked child -> (how, value)

    how: "ok", "crash" (simulated kill), "hang", "dead"
    """
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        status = 1
        try:
            os.close(rfd)
            gc.disable()     # finalisers run where references end, not at a moment of its own
            resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

            def send(v):
                blob = pickle.dumps(v, 4)
                while blob:
                    blob = blob[os.write(wfd, blob):]
            if OPTIMIZED:
                api.without_asserts()
            v = fn(send)
            if v is not None:
                send(v)
            status = 0
        except BaseException as e:
            import traceback
            try:
                send({"harness": traceback.format_exc()})
            except BaseException:
                pass
            status = 99
        finally:
            os._exit(status)
    os.close(wfd)
    buf = bytearray()
    deadline = time.monotonic() + WALL_LIMIT
    hang = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            hang = True
            os.kill(pid, signal.SIGKILL)
            break
        r, _, _ = select.select([rfd], [], [], left)
        if r:
            d = os.read(rfd, 1 << 20)
            if not d:
                break
            buf += d
    os.close(rfd)
    _, st = os.waitpid(pid, 0)
    value = pickle.loads(bytes(buf)) if buf and not hang else None
    if hang or (os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL)):
        return "hang", None
    if os.WIFSIGNALED(st):
        return "dead", os.WTERMSIG(st)
    code = os.WEXITSTATUS(st)
    if code == 0:
        return "ok", value
    if code == world.CRASH_STATUS:
        return "crash", value
    if value and "harness" in value:
        raise HarnessError(value["harness"])
    return "dead", code


OPTIMIZED = False    # simulate an interpreter started with -O


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------ API plans

def strip(s, keep_io=False):
    s = dict(s)
    s["faults"] = [f for f in s.get("faults", ()) if keep_io and f.get("op") != "line"]
    return s


def counts(log):
    c = {}
    for e in log:
        if len(e) == 4:
            c[(e[0], e[1])] = max(c.get((e[0], e[1]), 0), e[2])
    return c


def resolve(faults, cnt, lines, size, locs=None):
    """Relative fault positions (`frac`) -> absolute ones."""
    out = []
    for f in faults:
        f = dict(f)
        if "frac" in f:
            if f["op"] == "line" and "loc" in f and locs:
                # a line of the source, then one of its executions
                at = locs[min(int(f["loc"] * len(locs)), len(locs) - 1)]
                f["n"] = at[min(int(f["frac"] * len(at)), len(at) - 1)]
                out.append(f)
                continue
            if f["op"] == "line":
                total = lines
            elif f["op"] == "cap":
                total = size.get(f["at"], 0)
                f["n"] = min(int(f["frac"] * (total + 1)), max(total - 1, 0))
                if not total:
                    continue
                out.append(f)
                continue
            else:
                total = cnt.get((f["at"], f["op"]), 0)
            if not total:
                continue
            f["n"] = 1 + min(int(f["frac"] * total), total - 1)
        out.append(f)
    return out


def solo(s):
    """The session alone, without faults, in a pristine process."""
    s = dict(s)
    s["count_lines"] = any(f.get("op") == "line" for f in s.get("faults", ()))
    s["faults"] = []
    how, v = fork_call(lambda send: api.run_sessions({"sessions": [s]}))
    if how != "ok":
        return {"status": how, "done_fired": [], "exc": None, "data": b"", "fired": [], "log": [], "lines": 0,
                "at_failure": None, "phase": None, "msg": None, "strike": None}
    return v["results"][0]


def expected_text(s):
    """What a comparison is told to expect: the compiled tree, edited."""
    c = {"op": "compile", "tree": s["tree"], "ofmt": "binary", "opt": [0, 100], "snk": {"kind": "obj"},
         "faults": []}
    b = solo(c)
    if b["status"] != "ok":
        return None
    blob = edit(b["data"], s["edit"])
    return {"text": render.text({"fmt": "code", "style": s["style"]}, blob).decode("utf-8"),
            "equal": blob == b["data"]}


def edit(b, e):
    k = e["kind"]
    at = int(e["at"] * len(b))
    if k == "same" or not b:
        return b
    if k == "flip":
        return b[:at] + bytes([b[at] ^ (e["x"] or 4)]) + b[at + 1:]
    if k == "cut":
        return b[:at]
    if k == "cut1":
        return b[:-e["n"]]
    if k == "more":
        return b + bytes([e["x"]] * e["n"])
    if k == "drop":
        return b[:at] + b[at + 1:]
    if k == "dup":
        return b[:at] + b[at:at + 1] + b[at:]
    if k == "swap":
        return b[:at] + b[at:at + 2][::-1] + b[at + 2:]
    if k == "item":
        return b + b"\xc0"
    if k == "insert":
        return b[:at] + bytes([e["x"]] * e["n"]) + b[at:]
    if k == "twice":
        return b + b
    return b""


def execute_api(plan):
    if any(s["op"] == "expect" for s in plan["sessions"]):
        plan = dict(plan, sessions=[dict(s) for s in plan["sessions"]])
        for s in plan["sessions"]:
            if s["op"] == "expect":
                s.update(expected_text(s) or {"text": "", "equal": None})
    base = [solo(s) for s in plan["sessions"]]
    run = copy.copy(plan)
    run["sessions"] = []
    for s, b in zip(plan["sessions"], base):
        s = dict(s)
        s["faults"] = resolve(s.get("faults", ()), counts(b["log"]), b["lines"],
                              {"snk": len(b["data"])}, b.get("locs"))
        run["sessions"].append(s)
    obs = {"base": base, "resolved": run["sessions"]}
    plain = len(run["sessions"]) == 1 and not run["sessions"][0]["faults"]
    if plain:
        obs["how"] = "hang" if base[0]["status"] == "hang" else "ok"
        obs["results"] = base
    else:
        how, v = fork_call(lambda send: api.run_sessions(run))
        obs["how"] = how
        obs.update(v if how == "ok" else {"results": []})
    # solo run with the same I/O faults (for isolation oracles)
    if plan.get("want_solo"):
        obs["solo"] = []
        for s, b in zip(run["sessions"], base):
            io_f = [f for f in s["faults"] if f["op"] != "line"]
            if not io_f:
                obs["solo"].append(b)
                continue
            s1 = dict(s)
            s1["faults"] = io_f
            s1.pop("count_lines", None)
            how, v = fork_call(lambda send: api.run_sessions({"sessions": [s1]}))
            obs["solo"].append(v["results"][0] if how == "ok" else {"status": how, "data": b"", "exc": None})
    if plan.get("want_intact"):
        obs["intact"] = []
        for s in plan["sessions"]:
            obs["intact"].append(intact(s))
    return obs


def intact(s):
    """Output for the undamaged leading items of a damaged input, complete."""
    from . import hidref
    if "in" not in s or s["op"] == "decompile":
        return None
    items = leading(s["in"])
    s = dict(s)
    s["in"] = dict(s["in"], items=[list(i) for i in items], damage=None)
    return solo(s)


def leading(spec):
    from . import hidref
    data = render.render(spec)
    try:
        blob = hidref.to_bytes(spec["fmt"], data)
    except UnicodeDecodeError:
        return []
    except hidref.Invalid:
        return []
    return hidref.decode(blob, partial=True)


# ------------------------------------------------------------------ CLI plans

def setup_dir(root, files):
    for name, spec in files.items():
        data = render.render(spec) if isinstance(spec, dict) else bytes.fromhex(spec)
        with open(os.path.join(root, name), "wb") as f:
            f.write(data)


def snapshot(root):
    out = {}
    for n in sorted(os.listdir(root)):
        p = os.path.join(root, n)
        if os.path.isfile(p):
            with open(p, "rb") as f:
                out[n] = f.read()
        else:
            out[n] = None
    return out


def run_process(run, root):
    name = run.get("stdin_name", "stdin")
    if "stdin" in run:
        setup_dir(root, {name: run["stdin"]})
    elif not os.path.exists(os.path.join(root, name)):
        setup_dir(root, {name: ""})

    def child(send):
        p = cli.Process(run, root)
        p.on_crash = lambda: send({"code": None, "exc": "crash", "fired": p.w.fired,
                                   "log": p.w.log, "lines": 0, "strike": None, "stderr": ""})
        return p.run()
    how, v = fork_call(child)
    if not isinstance(v, dict):
        v = None
    v = v or {"code": None, "exc": how, "fired": [], "log": [], "lines": 0, "strike": None,
              "stderr": ""}
    v["how"] = how
    v["files"] = snapshot(root)
    return v


def fresh(files):
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix="hrdc-dst-", dir=scratch_base())
    root = tempfile.mkdtemp(dir=SCRATCH)
    setup_dir(root, files)
    return root


def cleanup():
    global SCRATCH
    if SCRATCH is not None:
        shutil.rmtree(SCRATCH, ignore_errors=True)
        SCRATCH = None


def execute_cli(plan):
    obs = {"base": [], "runs": []}
    seen = {}
    for run in plan["runs"]:
        clean = dict(run)
        clean["count_lines"] = any(f.get("op") == "line" for f in run.get("faults", ()))
        clean["faults"] = []
        key = json.dumps([clean[k] for k in ("tool", "argv", "count_lines")]
                         + [clean.get("stdin"), clean.get("tree")], sort_keys=True)
        if key not in seen:
            root = fresh(plan["files"])
            try:
                seen[key] = run_process(clean, root)
            finally:
                shutil.rmtree(root, ignore_errors=True)
        obs["base"].append(seen[key])
    root = fresh(plan["files"])
    try:
        obs["before"] = snapshot(root)
        for run, b in zip(plan["runs"], obs["base"]):
            run = dict(run)
            sizes = {role: len(b["files"].get(n) or b"") for n, role in run.get("roles", {}).items()}
            sizes["stdout"] = len(b["files"].get("stdout") or b"")
            run["faults"] = resolve(run.get("faults", ()), counts(b["log"]), b["lines"], sizes,
                                    b.get("locs"))
            obs["runs"].append(run_process(run, root))
            obs["runs"][-1]["resolved"] = run["faults"]
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return obs


def execute_chain(plan):
    """Commands feeding each other through files.  Every stage is attempted
    until it exits 0: first with the faults planned for each attempt, finally
    without."""
    obs = {"runs": [], "stage": []}
    root = fresh(plan["files"])
    try:
        for k, st in enumerate(plan["stages"]):
            good = False
            b = None
            for faults in st["attempts"] + [[]]:
                run = dict(st, faults=[])
                if "stdin_from" in st:
                    src = os.path.join(root, st["stdin_from"])
                    if os.path.exists(src):
                        shutil.copyfile(src, os.path.join(root, "stdin"))
                if faults and b is None:
                    run["count_lines"] = any(f.get("op") == "line" for a in st["attempts"] for f in a)
                    trial = tempfile.mkdtemp(dir=SCRATCH)
                    try:
                        shutil.copytree(root, trial, dirs_exist_ok=True)
                        b = run_process(run, trial)
                    finally:
                        shutil.rmtree(trial, ignore_errors=True)
                    run.pop("count_lines")
                if faults:
                    sizes = {role: len(b["files"].get(n) or b"") for n, role in run["roles"].items()}
                    sizes["stdout"] = len(b["files"].get("stdout") or b"")
                    run["faults"] = resolve(faults, counts(b["log"]), b["lines"], sizes, b.get("locs"))
                v = run_process(run, root)
                v["resolved"] = run["faults"]
                obs["runs"].append(v)
                obs["stage"].append(k)
                if v["how"] in ("hang", "dead"):
                    return obs
                if v["code"] == 0:
                    good = True
                    if "stdout_to" in st:
                        shutil.copyfile(os.path.join(root, "stdout"), os.path.join(root, st["stdout_to"]))
                        v["files"] = snapshot(root)
                    break
            if not good:
                break
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return obs


def execute(plan):
    global OPTIMIZED
    OPTIMIZED = bool(plan.get("O"))
    if plan["mode"] == "chain":
        return execute_chain(plan)
    if plan["mode"] == "multi":
        from . import multi
        return multi.execute(plan)
    return execute_cli(plan) if plan["mode"] == "cli" else execute_api(plan)


# --------------------------------------------------------------- fingerprints

def fingerprint(obs):
    """Digest of everything observable in a run (event logs included)."""
    def norm(o):
        if isinstance(o, dict):
            return {str(k): norm(v) for k, v in sorted(o.items(), key=lambda x: str(x[0]))
                    if k not in ("stderr",)}
        if isinstance(o, (list, tuple)):
            return [norm(x) for x in o]
        if isinstance(o, (bytes, bytearray)):
            # default object reprs in diagnostics show addresses
            return hashlib.sha1(re.sub(rb" at 0x[0-9a-f]+>", b" at 0x>", bytes(o))).hexdigest()
        return o
    return hashlib.sha1(json.dumps(norm(obs), sort_keys=True, default=str).encode()).hexdigest()
