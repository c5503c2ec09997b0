#!/opt/venv/bin/python
"""Entry point of all checks.

  check.py C01                    run the check of a property (tier: VERIF_TIER)
  check.py --replay FILE          re-execute a reported violation
  check.py --selftest             determinism of the simulator
"""
import collections
import json
import os
import pickle
import select
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent/pycache"
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)

# runs per tier, sized from measured cost
QUICK = {"C01": 9000, "C02": 14000, "C03": 9000, "C04": 9000, "C05": 16000,
         "C06": 2600, "C07": 4500, "C08": 6000, "C09": 2600, "C12": 3000,
         "C14": 4000, "C15": 2500, "C16": 2200}
THOROUGH_FACTOR = 20
WALL = {"quick": 420, "thorough": 6 * 3600}

REAL = ["hrdc (whole package, from /repo's working tree)", "argparse, runpy",
        "CPython io stack (BufferedReader/Writer, TextIOWrapper) above the raw layer",
        "threads (parked and released one at a time by the scheduler)"]
STUB = ["raw file/stream layer (SimRaw)", "process exit status and shutdown flush (dst/cli.py)",
        "threading.Lock/RLock as seen by the package (SimLock)"]


def load():
    from dst import sched
    sched.patch_locks()
    from dst import api
    api.preload()


# ------------------------------------------------------------------- workers

def nontrivial(plan, obs):
    """(signature, non-trivial?) of a run."""
    import hashlib
    parts = []
    size = 0
    fired = set()
    if plan["mode"] == "chain":
        for k, r in zip(obs["stage"], obs["runs"]):
            fired |= set(r["fired"])
            parts.append((k, plan["stages"][k]["argv"], r["code"], r["fired"], r["strike"]))
        if obs["runs"]:
            fs = obs["runs"][-1]["files"]
            parts.append(sorted((n, hashlib.sha1(d or b"").hexdigest()) for n, d in fs.items()))
        ok = len(obs["stage"]) > 0 and obs["stage"][-1] > 0
        return hashlib.sha1(repr(parts).encode()).digest()[:10], ok, fired
    if plan["mode"] == "multi":
        for s, r in zip(plan["runs"], obs["runs"]):
            fired |= set(r["fired"])
            parts.append((s["tool"], s["argv"], r["code"], r["fired"], r["strike"]))
        if obs["runs"]:
            parts.append(sorted((n, hashlib.sha1(d or b"").hexdigest()) for n, d in obs["runs"][-1]["files"].items()))
        parts.append(obs["sched"])
        ok = len({k for k, _ in obs["sched"]}) > 1 and len(obs["sched"]) > len(plan["runs"])
        return hashlib.sha1(repr(parts).encode()).digest()[:10], ok, fired
    if plan["mode"] == "cli":
        for s, r in zip(plan["runs"], obs["runs"]):
            fired |= set(r["fired"])
            size += sum(len(d or b"") for n, d in r["files"].items() if n != "bystander")
            parts.append((s["tool"], s["argv"], r["code"], r["fired"], r["strike"],
                          sorted((n, hashlib.sha1(d or b"").hexdigest()) for n, d in r["files"].items())))
    else:
        for s, r in zip(plan["sessions"], obs.get("results", ())):
            fired |= set(r["fired"])
            size += len(r["data"])
            parts.append((s["op"], s.get("ofmt"), s.get("opt"), r["status"], r["exc"], r["fired"],
                          r["strike"], hashlib.sha1(r["data"]).hexdigest()))
        parts.append(obs.get("sched"))
        if plan["prop"] == "C06":
            inter = bool(obs.get("sched")) or (plan.get("schedule") or {}).get("mode") == "interleave"
            return hashlib.sha1(repr(parts).encode()).digest()[:10], bool(size and inter), fired
        if plan["prop"] == "C15":
            parts.append([(s.get("text"), s["tree"]) for s in obs.get("resolved", ())])
            return hashlib.sha1(repr(parts).encode()).digest()[:10], True, fired
        if plan["prop"] == "C05":
            from dst import oracle
            bad = any("in" in s and (oracle.input_items(s["in"])[1] or s["op"] == "decompile")
                      for s in plan["sessions"])
            return hashlib.sha1(repr((parts, plan["sessions"][0]["in"])).encode()).digest()[:10], bad, fired
    ok = bool(size) or bool(fired)
    if plan["prop"] in ("C04", "C09"):
        ok = any(not f.endswith(".short") for f in fired)
    return hashlib.sha1(repr(parts).encode()).digest()[:10], ok, fired


RULES = {
    "C01": "run = 1-5 plain conversions with seeded items, encodings, stream kinds, chunkings and faults; non-trivial: bytes were delivered or a fault fired; distinct by operations, outcomes, faults fired and output",
    "C02": "run = 1-3 optimised conversions (possibly chained) of device-style descriptors, closed at a seeded item boundary, seeded pass window and faults; non-trivial: bytes delivered or a fault fired; distinct by outcomes, faults and output",
    "C03": "run = 1-3 compilations of seeded trees (possibly one shared tree); non-trivial: bytes delivered or a fault fired; distinct by outcomes, faults and output",
    "C04": "run = one operation (library call or command line) struck by seeded faults (transfer or executed line); non-trivial: a fault other than a short transfer fired; distinct by outcome, fault, line struck and bytes delivered",
    "C05": "run = one operation on a seeded damaged input; non-trivial: the reference refuses the input (or a decompilation); distinct by input and outcome",
    "C06": "run = 2-4 concurrent operations under a seeded schedule; non-trivial: control moved between operations in flight and bytes were delivered; distinct by the exact switch sequence and outputs",
    "C07": "run = history of 2-7 operations with seeded faults; non-trivial: bytes delivered or fault fired; distinct by outcomes, faults and outputs",
    "C08": "run = 1-2 simulated command lines with seeded faults; non-trivial: output or fault; distinct by command, exit status, faults and files",
    "C12": "run = chain of 2-6 commands feeding each other, each retried after seeded faults until it exits 0; non-trivial: a decompiled source was run; distinct by commands, outcomes, faults and final files",
    "C14": "run = 1-7 operations writing C code, in sequence, interleaved or as scheduled threads, with seeded faults; non-trivial: bytes were delivered or a fault fired; distinct by outcomes, faults, switches and outputs",
    "C15": "run = 1-4 comparisons (and compilations) of trees with an edited expectation, in sequence or as scheduled threads, some interrupted; non-trivial: always; distinct by tree, expected text, outcome and switches",
    "C16": "run = 2-5 commands at the same time in one directory, side by side or connected by bounded pipes, under a seeded schedule, some struck by faults; non-trivial: control moved between processes in flight; distinct by the exact schedule, commands, outcomes, faults and files",
    "C09": "run = 1-3 crashed or failed attempts and a rerun; non-trivial: a crash or failure fired; distinct by commands, crash points and files",
}


def work(prop, seed, todo, wfd, deadline, first_only=True):
    from dst import engine, oracle, plans
    load()

    def send(x):
        b = pickle.dumps(x, 4)
        b = len(b).to_bytes(4, "big") + b
        while b:
            b = b[os.write(wfd, b):]

    hits = collections.Counter()
    fired = collections.Counter()
    sigs = set()
    nontriv = 0
    runs = sub = steps = switches = 0
    samples = []
    t0 = time.monotonic()
    errors = 0
    for i in todo:
        if time.monotonic() > deadline:
            break
        plan = plans.make(prop, seed, i)
        try:
            obs = engine.execute(plan)
            v = oracle.judge(plan, obs, lambda x: hits.update([x]))
        except Exception:
            import traceback
            errors += 1
            send(("error", i, traceback.format_exc()))
            if errors > 5:
                break
            continue
        runs += 1
        sig, nt, fd = nontrivial(plan, obs)
        if nt and sig not in sigs:
            sigs.add(sig)
        for r in obs.get("results", obs.get("runs", ())):
            fired.update(r["fired"])
        sub += len(obs.get("results", obs.get("runs", ())))
        steps += obs.get("steps", 0) + sum(len(r["log"]) for r in obs.get("results", obs.get("runs", ())))
        switches += len(obs.get("sched", ()))
        if nt and len(samples) < 1 and i >= 3:
            samples.append(sample(plan, obs))
        if v:
            # a violation counts only if the same plan shows it again
            again = {c for c, _ in oracle.judge(plan, engine.execute(plan))}
            if not again & {c for c, _ in v}:
                send(("flake", i, v))
                continue
            send(("violation", i, v))
            if first_only:
                break
        if runs % 200 == 0:
            send(("tick", runs))
    engine.cleanup()
    send(("done", dict(runs=runs, hits=dict(hits), fired=dict(fired), sigs=sigs, sub=sub,
                       steps=steps, switches=switches, samples=samples)))


def sample(plan, obs):
    import copy
    p = copy.deepcopy(plan)

    def clip(o):
        if isinstance(o, dict):
            return {k: clip(v) for k, v in o.items()}
        if isinstance(o, list):
            o = [clip(x) for x in o]
            return o if len(o) <= 8 else o[:8] + ["... %d more" % (len(o) - 8)]
        if isinstance(o, str) and len(o) > 80:
            return o[:80] + "..."
        return o
    out = []
    for r in obs.get("results", obs.get("runs", ())):
        out.append({k: r.get(k) for k in ("status", "exc", "code", "how", "fired", "strike") if k in r})
        out[-1]["fired"] = out[-1]["fired"][:6]
    return {"plan": clip(p), "outcome": clip(out)}


# --------------------------------------------------------------------- replay

def replay_here(path):
    from dst import engine, oracle
    load()
    with open(path) as f:
        rec = json.load(f)
    obs = engine.execute(rec["plan"])
    v = oracle.judge(rec["plan"], obs)
    fp = engine.fingerprint(obs)
    engine.cleanup()
    return rec, v, fp


def replay(path):
    rec, v, fp = replay_here(path)
    for c, d in v:
        print("%s: %s" % (c, d))
    print("fingerprint %s" % fp)
    if v:
        print("VIOLATION property=%s replay=%s" % (rec["property"], path))
        return 1
    print("property %s held on this replay" % rec["property"])
    return 0


def fresh_replay(path):
    """Replay in a new interpreter -> set of violation classes, fingerprint."""
    p = subprocess.run([sys.executable, "-B", os.path.join(HERE, "check.py"), "--replay-json", path],
                       capture_output=True, text=True)
    try:
        d = json.loads(p.stdout.strip().splitlines()[-1])
        return set(d["classes"]), d["fingerprint"], d["violations"]
    except Exception:
        return set(), None, [["replay-failed", p.stdout[-500:] + p.stderr[-500:]]]


def report(prop, seed, index):
    """Minimise, store and confirm.  -> path of the replay file or None"""
    from dst import engine, oracle, plans, shrink
    load()
    plan = plans.make(prop, seed, index)

    def classes(p):
        return {c for c, _ in oracle.judge(p, engine.execute(p))}
    want = classes(plan)
    if not want:
        want = classes(plan)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", "%s-%d-%d.json" % (prop, seed, index))

    def store(p, tried):
        v = oracle.judge(p, engine.execute(p))
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": [seed, index], "violations": v,
                       "minimised_in": tried, "plan": p}, f, indent=1)
        return v
    if want:
        cls = sorted(want)[0]
        slow = cls == "no-progress"
        small, tried = shrink.minimise(plan, lambda p: cls in classes(p), 5.0 if slow else 25.0)
        store(small, tried)
        got, fp, v = fresh_replay(path)
        if cls in got:
            engine.cleanup()
            return path, v
    store(plan, 0)
    for _ in range(4):
        got, fp, v = fresh_replay(path)
        if got:
            engine.cleanup()
            return path, v
    engine.cleanup()
    return None, None


# ----------------------------------------------------------------------- main

def findings(prop):
    out = []
    try:
        with open(os.path.join(HERE, "known-findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("KNOWN-FINDING: property=%s " % prop):
                    out.append(line)
    except OSError:
        pass
    return out


def main(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in WALL:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    total = QUICK[prop] * (THOROUGH_FACTOR if tier == "thorough" else 1)
    total = int(os.environ.get("VERIF_RUNS", total))
    nw = int(os.environ.get("VERIF_WORKERS", os.cpu_count() or 4))
    t0 = time.monotonic()
    deadline = t0 + WALL[tier]
    print("property %s tier %s seed %d: %d runs on %d workers" % (prop, tier, seed, total, nw))
    sys.stdout.flush()
    pids = {}
    bufs = {}
    for w in range(nw):
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rfd)
                os.setpgid(0, 0)
                work(prop, seed, range(w, total, nw), wfd, deadline)
            except BaseException:
                import traceback
                traceback.print_exc()
                os._exit(1)
            os._exit(0)
        os.close(wfd)
        pids[rfd] = pid
        bufs[rfd] = bytearray()
    done = []
    viol = []
    errors = []
    flakes = []
    live = set(pids)
    lost = 0
    while live:
        r, _, _ = select.select(list(live), [], [], 5)
        for fd in r:
            d = os.read(fd, 1 << 20)
            if not d:
                live.discard(fd)
                os.close(fd)
                _, st = os.waitpid(pids[fd], 0)
                if st:
                    lost += 1
                continue
            b = bufs[fd]
            b += d
            while len(b) >= 4:
                n = int.from_bytes(b[:4], "big")
                if len(b) < 4 + n:
                    break
                m = pickle.loads(bytes(b[4:4 + n]))
                del b[:4 + n]
                if m[0] == "done":
                    done.append(m[1])
                elif m[0] == "violation":
                    viol.append((m[1], m[2]))
                elif m[0] == "flake":
                    flakes.append((m[1], m[2]))
                elif m[0] == "error":
                    errors.append((m[1], m[2]))
        if viol:
            deadline = min(deadline, time.monotonic() + 3)
            if time.monotonic() >= deadline or len(viol) >= 4:
                for fd in live:
                    try:
                        os.killpg(pids[fd], signal.SIGKILL)
                    except OSError:
                        pass
    wall = time.monotonic() - t0
    known = findings(prop)
    for k in known:
        print(k)
    confirmed = []
    unconfirmed = 0
    for idx, v in sorted(viol)[:5]:
        path, vv = report(prop, seed, idx)
        if path:
            confirmed.append((path, vv))
            break
        unconfirmed += 1
    agg = collections.Counter()
    fired = collections.Counter()
    hits = collections.Counter()
    sigs = set()
    samples = []
    for d in done:
        for k in ("runs", "sub", "steps", "switches"):
            agg[k] += d[k]
        fired.update(d["fired"])
        hits.update(d["hits"])
        sigs |= d["sigs"]
        samples += d["samples"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(sigs),
            "rule": RULES[prop],
            "samples": samples[:3],
            "planned_runs": total,
            "operations_executed": agg["sub"],
            "runs_per_hour": int(agg["runs"] / max(wall, .001) * 3600),
            "simulated_time": "the package reads no clock; progress is counted in simulator events (transfers, scheduling points): %d" % agg["steps"],
            "simulator_events": agg["steps"],
            "context_switches": agg["switches"],
            "faults_fired": dict(sorted(fired.items())),
            "probes": dict(sorted(hits.items())),
            "real_components": REAL, "stubbed_components": STUB,
            "unconfirmed": unconfirmed + len(flakes), "harness_errors": len(errors),
        },
        "assumptions": [
            "faults are those listed in faults_fired; transfers outside the simulated raw layer do not fail",
            "a clean batch is evidence over the sampled runs, not proof",
        ],
        "wall_s": round(wall, 2),
        "violations": len(confirmed),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", prop + ".json")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    print("%d runs (%d distinct non-trivial), %d operations, %d simulator events, %.1f s"
          % (agg["runs"], len(sigs), agg["sub"], agg["steps"], wall))
    for i, v in flakes:
        print("run %d: not reproduced: %s" % (i, v[:2]))
    if confirmed:
        path, vv = confirmed[0]
        for c, d in vv[:4]:
            print("%s: %s" % (c, d))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors and not agg["runs"] or lost and not viol or errors and len(errors) > 3:
        for i, e in errors[:2]:
            print("harness error in run %d:\n%s" % (i, e))
        print("check of %s could not complete" % prop)
        return 2
    for i, e in errors[:1]:
        print("harness error in run %d:\n%s" % (i, e))
    if errors:
        return 2
    print("property %s held on everything explored" % prop)
    return 0


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") is None:
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
    a = sys.argv[1:]
    if a[:1] == ["--replay"]:
        sys.exit(replay(a[1]))
    if a[:1] == ["--replay-json"]:
        rec, v, fp = replay_here(a[1])
        print(json.dumps({"classes": sorted({c for c, _ in v}), "fingerprint": fp, "violations": v}))
        sys.exit(1 if v else 0)
    if a[:1] == ["--selftest"]:
        sys.path.insert(0, HERE)
        from dst import selftest
        sys.exit(selftest.main(a[1:]))
    sys.exit(main(a[0]))
