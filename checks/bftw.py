#!/usr/bin/env python3
"""C04: whole walks under every schedule with at most K deviations, compared with the single-threaded walk."""
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vc, mcs

THOROUGH = vc.TIER == "thorough"
TREES = {"A": ["r"], "B": ["r"], "C": ["r", "q"], "D": ["r"], "E": ["r"], "F": ["r", "gone", "r/a"]}
U = ["0", "ffffffff:7:2", "0:7:4", "ffffffff:1:2"]

def mktrees(d):
    for p in ("A/r/a/f", "A/r/b/", "B/r/a/b/", "B/r/a/f", "B/r/c/", "B/r/e/", "C/r/a/", "C/q/", "D/r/a/", "D/t/f", "E/r/d/d/d/f", "E/r/d/f", "F/r/a/f", "F/r/e/"):
        x = os.path.join(d, p)
        os.makedirs(x if p.endswith("/") else os.path.dirname(x), exist_ok=True)
        if not p.endswith("/"): open(x, "w").close()
    os.symlink("../t", d + "/D/r/l"); os.symlink("../../r", d + "/D/r/a/up"); os.symlink("nowhere", d + "/D/r/n")

def jobs():
    js = []
    def add(K, depth, n, u, strat, flags, nopen, act, tree): js.append((K, depth, n, u, strat, flags or "-", nopen, act, tree))
    combos = [(1, 3, U[0]), (2, 16, U[1]), (8, 4, U[0]), (2, 4, U[2]), (1, 16, U[3]), (8, 3, U[1])]
    for tree in TREES:
        for flags in ("", "s", "p", "o", "sp", "so", "b", "spo"):
            if tree == "D": flags += "fc"
            for strat in range(4):
                for n in (1, 2):
                    for i, (depth, nopen, u) in enumerate(combos):
                        if not THOROUGH and (i + strat + len(flags)) % (3 if n == 1 else 9): continue
                        add(1, depth, n, u, strat, flags, nopen, "-", tree)
    for tree, nv in (("A", 5), ("B", 7), ("D", 6)):
        for strat in range(4):
            for fl in ("", "p", "s"):
                for q in range(1, nv + 1 + (nv - 1 if fl == "p" else 0)):
                    for n in (1, 2):
                        i = strat + q + n
                        if not THOROUGH and (n == 2 and q % 4 != 1): continue
                        depth, nopen, u = combos[i % len(combos)]
                        add(1, depth, n, u, strat, fl + ("fc" if tree == "D" else ""), nopen, "q%d" % q, tree)
                for n in (1, 2): add(1, 2, n, U[n - 1], strat, fl, 4, "pa", tree)
    for strat in range(4):
        for depth, nopen, u in ((2, 16, U[0]), (1, 3, U[1])):
            if THOROUGH or depth == 1 + strat % 2: add(2, depth, 1, u, strat, "", nopen, "-", "C")
            if THOROUGH or depth == 2 - strat % 2: add(2, depth, 1, u, strat, "s", nopen, "q2", "C")
            if THOROUGH:
                for t in TREES:
                    for fl in ("", "s", "p", "so"): add(2, depth, 1, u, strat, fl + ("fc" if t == "D" else ""), nopen, "-", t)
                add(2, depth, 2, u, strat, "s", nopen, "-", "C")
    return js

def worker(j):
    K, depth, n, u, strat, flags, nopen, act, tree, part, nparts = j
    st = vc.wstate()
    lim = st["deadline"] - time.time()
    res, bad = mcs.run(st["bin"], (depth, n, u, strat, flags, nopen, act, os.path.join(st["dir"], tree), *TREES[tree]), K, part, nparts, limit=max(1, lim), freecost=1)
    if bad:
        return {"evals": 1, "violations": [("walk of tree %s, queue depth %d, %d threads, uring %s, strategy %d, flags %s, %d descriptors, action %s: %s" % (tree, depth, n, u, strat, flags, nopen, act, bad[0]), bad[1])]}
    return {"evals": res["execs"], "states": res["states"], "events": res["steps"], "distinct": res["outcomes"],
            "extra": {"schedules_cut_by_state_cache": res["pruned"], "harness_runs": 1, "schedules_K%d_workers%d" % (K, n): res["execs"], "incomplete_runs": 0 if res["complete"] else 1},
            "samples": ["tree %s depth %d threads %d uring %s strategy %d flags %s fds %d action %s K=%d: %d schedules" % (tree, depth, n, u, strat, flags, nopen, act, K, res["execs"])] if hash(j) % 97 == 0 else []}

def run(chk):
    b, path = mcs.build("mcs_bftw", "mcs_bftw", ("ioq_create",))
    d = vc.ramscratch("bftw"); mktrees(d)
    js = []
    for j in sorted(set(jobs())):
        c = 8 if j[0] > 1 else 1
        js += [(*j, p, c) for p in range(c)]
    js.sort(key=lambda j: (-j[0], -j[2]))
    def init(st): st["bin"] = path; st["dir"] = d; st["deadline"] = chk.deadline
    vc.parallel(js, worker, chk, init=init)
    if chk.extra.get("incomplete_runs"): chk.truncated = True

if __name__ == "__main__":
    vc.main("C04", "model_checking",
            "All schedules with at most K deviations from running each thread until it blocks (preemptions, other wake-up orders, spurious failures, io_uring deviations; K=1..2) of a whole bftw() walk on the real bftw.c, ioq.c and dir.c with one or two workers, for small trees (with unreadable directories, links, several roots), all strategies, flag combinations, descriptor limits, queue depths, and a stop at every visit; visits, attributes, leaks, races and termination are checked in each.",
            run,
            ["Atomics are executed sequentially consistently; weaker outcomes are covered through the vector-clock race detector.",
             "io_uring is replaced by a model of the kernel.", "The queue is made 1-8 entries deep instead of 4096 so that it fills and wraps."])
