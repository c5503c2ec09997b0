"""Proves the simulator deterministic: the same plans give the same event logs
in different interpreters, under different hash seeds, orders and loads."""
import os
import subprocess
import sys


def fingerprints(prop, start, n, reverse):
    import check
    from dst import engine, plans
    check.load()
    order = range(start, start + n)
    for i in (reversed(order) if reverse else order):
        print(prop, i, engine.fingerprint(engine.execute(plans.make(prop, 7, i))))
    engine.cleanup()


def main(args):
    if args[:1] == ["--one"]:
        fingerprints(args[1], int(args[2]), int(args[3]), args[4] == "r")
        return 0
    n = int(args[0]) if args else 40
    props = ["C0%d" % i for i in range(1, 10)] + ["C12", "C14", "C15", "C16"]
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    jobs = []
    for p in props:
        for k, (hs, rev) in enumerate([("0", "f"), ("1", "r"), ("12345", "f")]):
            jobs.append((p, k, hs, rev))
    res = {}
    running = []

    def reap(pr, p, k):
        out, err = pr.communicate()
        if pr.returncode:
            print("failed", p, k, err[-800:])
        for line in out.splitlines():
            a = line.split()
            res.setdefault((a[0], int(a[1])), set()).add(a[2])
    # different levels of load: first variant alone, others many at a time
    for width in (8,):
        for p, k, hs, rev in jobs:
            env = dict(os.environ, PYTHONHASHSEED=hs)
            running.append((subprocess.Popen(
                [sys.executable, "-B", os.path.join(here, "check.py"), "--selftest", "--one", p, "0",
                 str(n), rev], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True), p, k))
            if len(running) >= width * (1 + k):
                reap(*running.pop(0))
        for x in running:
            reap(*x)
    bad = sorted(k for k, v in res.items() if len(v) != 1)
    print("%d plans, 3 executions each, %d diverged" % (len(res), len(bad)))
    for b in bad[:20]:
        print("DIVERGED", b)
    return 1 if bad or len(res) != n * len(props) else 0
