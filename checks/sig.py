#!/usr/bin/env python3
"""C15: signal hooks, with signals injected at every point of every schedule with at most K deviations."""
import itertools, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vc, mcs

THOROUGH = vc.TIER == "thorough"

def lives(hooks):
    """What happens to each hook: in the setup only, removed by / added by / added and removed by thread 0 or 1."""
    opts = [("S", "", ""), ("S", "x", ""), ("S", "", "x"), ("", "X", ""), ("", "", "X"), ("", "Xx", ""), ("", "", "Xx"), ("S", "xN", "")]
    for c in itertools.product(opts, repeat=len(hooks)):
        for rev in ((False, True) if len(hooks) > 1 else (False,)):
            s = t0 = t1 = ""
            for h, (a, b, d) in (reversed(list(zip(hooks, c))) if rev else zip(hooks, c)):
                t0 += "".join({"x": h.lower(), "X": h, "N": NEXT.get(h, "H")}[x] for x in b)
                t1 += "".join({"x": h.lower(), "X": h}[x] for x in d)
            for h, (a, b, d) in zip(hooks, c):
                if a: s += h
            if not s or not (t0 or t1): continue
            yield s, t0, t1 or "-"

NEXT = {"A": "F", "B": "G", "C": "H"}     # slot for another registration in place of a removed one
def conf(hooks, sig, flags): return ",".join("%s%d%s" % (n, sig, f) for h, f in zip(hooks, flags) for n in (h, NEXT[h]))

def jobs():
    js = []
    def add(K, hooks, sigs, budget, s, t0, t1, *more):
        js.append((K, (hooks, sigs, budget, s, t0, t1, *more)))
    # one or two hooks on one signal
    for flags in (("", ""), ("o", "")):
        for l in lives("AB"):
            add(4 if THOROUGH else 2 if flags[0] else 3, conf("AB", 28, flags), "28", 2, *l)
            add(3 if THOROUGH else 2, conf("AB", 28, flags), "28", 2, "-" + l[0], *l[1:])
    for l in lives("A"): add(6 if THOROUGH else 5, conf("A", 28, ("",)), "28", 2, *l)
    # three hooks
    for l in lives("ABC"):
        add(3 if THOROUGH else 2, conf("ABC", 28, ("", "", "")), "28", 1, *l)
    # fatal signals, with hooks that suppress the death and hooks that run before it
    for flags in (("c", ""), ("c", "c"), ("c", "o"), ("co", "")):
        for l in lives("AB"):
            add(2 if not THOROUGH else 3, conf("AB", 10, flags), "10", 2, *l)
            add(1, conf("AB", 10, flags), "10", 2, "=" + l[0], *l[1:])
    for l in lives("AE"):
        if set("EeH") & set(l[1] + l[2]): continue
        add(2 if THOROUGH else 1, "A10c,F10c,E0", "10", 2, *l)
        add(1, "A10c,F10c,E0", "10", 2, "=" + l[0], *l[1:])
    # a signal that was being ignored does not become fatal
    add(0, "A28,E0", "10", 1, "!E", "A", "-")
    # two signals, nested deliveries
    for l in lives("AB"):
        add(2 if not THOROUGH else 3, "A28,F28,B10c,G10c", "28,10", 2, *l)
    # three threads
    for p in (("AB", "a", "b", "-"), ("AB", "a", "b", "C"), ("AB", "C", "a", "b"), ("ABC", "b", "a", "c"), ("A", "a", "B", "C")):
        add(3 if THOROUGH else 2, "A28,B28,C28", "28", 2, *p)
        add(3 if THOROUGH else 2, "A28,B28,C28", "28", 2, "-" + p[0], *p[1:])
    # fork in the middle of an update, then reset
    for a in ("R", "BR", "AaR"):
        for b in ("B", "BC", "Bb", "E", "-"):
            if set(a) & set(b): continue
            for s in ("D", "DF", "-D"):
                add(2 if b == "E" else 4 if THOROUGH else 3, "A28,B10c,C12,D17,E0,F11", "28", 0, s, a, b)
    return js

def worker(j):
    K, a, part, nparts = j
    st = vc.wstate()
    lim = st["deadline"] - time.time()
    res, bad = mcs.run(st["bin"], a, K, part, nparts, limit=max(1, lim))
    if bad:
        return {"evals": 1, "violations": [("signal hooks %s: %s" % (" ".join(map(str, a)), bad[0]), bad[1])]}
    return {"evals": res["execs"], "states": res["states"], "events": res["steps"], "distinct": res["outcomes"],
            "extra": {"schedules_cut_by_state_cache": res["pruned"], "harness_runs": 1, "incomplete_runs": 0 if res["complete"] else 1},
            "samples": ["hooks %s signals %s x%s setup %s threads %s: K=%d, %d schedules" % (a[0], a[1], a[2], a[3], a[4:], K, res["execs"])] if hash(j) % 47 == 0 else []}

def run(chk):
    b, path = mcs.build_sig()
    js = []
    for K, a in jobs():
        c = 8 if len(a) > 6 or K >= 3 and len(a[0]) > 16 else 1
        js += [(K, a, p, c) for p in range(c)]
    js.sort(key=lambda j: (-len(j[1]), -j[0], -len(j[1][0])))
    def init(st): st["bin"] = path; st["deadline"] = chk.deadline
    vc.parallel(js, worker, chk, init=init)
    if chk.extra.get("incomplete_runs"): chk.truncated = True

if __name__ == "__main__":
    vc.main("C15", "model_checking",
            "All schedules with at most K deviations (preemptions, signal deliveries to any thread at any scheduling point, spurious failures; K=1..6) of the real sighook.c, for every way of registering/removing 1-3 hooks from 1-3 threads; every delivery's set of hook runs is checked against the hooks registered throughout it.",
            run,
            ["Signal delivery is modelled as a call of the installed handler on the interrupted thread's stack at a scheduling point (atomic, lock, semaphore or sigaction operation).",
             "Atomics are executed sequentially consistently; weaker outcomes are covered through the vector-clock race detector."])
