#!/usr/bin/env python3
"""C03: the I/O queue under every schedule with at most K deviations, for all short histories of operations."""
import itertools, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vc, mcs

THOROUGH = vc.TIER == "thorough"
NOURING = "0"
URINGS = ["ffffffff:7:2", "0:7:4", "ffffffff:1:2"]

def scripts(maxlen):
    """All sequences of steps: submit a burst of one or two, pop, poll, cancel."""
    out = []
    for n in range(1, maxlen + 1):
        for seq in itertools.product("12PQX", repeat=n):
            if seq[0] not in "12": continue
            if seq.count("X") > 1: continue
            sub = sum(int(c) for c in seq if c in "12")
            if sum(c == "P" for c in seq) > sub: continue
            if "X" in seq and any(c in "12" for c in seq[seq.index("X") + 1:][1:]): continue
            out.append("".join({"1": "Nu", "2": "Ncu", "P": "p", "Q": "q", "X": "x"}[c] for c in seq))
    return out

def jobs():
    js = []
    # 1. kinds of requests, in pairs, with cancellation at every position
    kinds = "nNsScoO"
    for a, b in itertools.product(kinds, repeat=2):
        for s in (a + b + "upp", a + "u" + b + "upp", a + "ux" + b, a + b + "ux", a + "xu" + b):
            for u in (NOURING, *URINGS):
                js.append((1, 2, 1, u, s))
                if THOROUGH or a <= b and u == (NOURING if (kinds.index(a) + kinds.index(b)) % 3 else URINGS[0]) and s[-1] != b: js.append((1, 2, 2, u, s))
    # directories: closed through the queue, with cancellation anywhere
    for s in ("oupkup", "ououppkkup", "oupkux", "oupkxup", "ouxk", "ookupup", "oupcku", "oupkOup"):
        for u in (NOURING, *URINGS):
            js.append((2, 2, 1, u, s)); js.append((1, 2, 2, u, s))
    # 2. histories
    for s in scripts(4 if not THOROUGH else 5):
        for d in (1, 2, 4):
            for u in (NOURING, URINGS[0]):
                short = sum(s.count(c) for c in "upqx") <= 3
                js.append((2 if short or THOROUGH else 1, d, 1, u, s))
                if THOROUGH or short and d == 2: js.append((1, d, 2, u, s))
                else: js.append((0, d, 2, u, s))
    # 3. a full lap of small queues, batches, polling until done, no drain, thread creation failing
    for d in (1, 2, 3, 4, 8, 9, 16):
        for s in ("NNNNNNNNNupux", "nnnNNNNNNNNupqx", "NuNuNuNuNuNuNuNuNux", "NNNuQQQ", "NuqqqqqqqqqqQ", "NNNu!", "Ncsu!", "csux!", "FNNupp", "FNuQ", "NNNNuuuxp"):
            for u in (NOURING, *URINGS):
                if u in (NOURING, URINGS[0]) and (d in (1, 2, 8) or len(s) < 8) or THOROUGH: js.append((1, d, 2, u, s))
                js.append((2 if u in (NOURING, URINGS[0]) and (d in (1, 2, 8) or len(s) < 8) or THOROUGH else 1, d, 1, u, s))
    # 4. deeper
    deep = ["Nup", "NNupp", "NuNupp", "Nuxp", "NNNux", "Nux!", "NuQ"]
    for s in deep:
        for d in (2, 16):
            for u in (NOURING, URINGS[0]):
                if THOROUGH or d == 2 and s != "NNNux": js.append((3, d, 1, u, s))
                if u == NOURING and d == 2 and s in ("Nup", "NNupp", "Nuxp", "Nux!") or THOROUGH: js.append((2, d, 2, u, s))
    return sorted(set(js), key=lambda j: (-j[0] * j[2], j))

def cost(j):
    return (j[0] >= 3 and 8) or (j[0] == 2 and j[2] == 2 and 16) or 1

def worker(j):
    K, depth, n, u, s, part, nparts = j
    st = vc.wstate()
    lim = st["deadline"] - time.time(); t0 = time.time()
    res, bad = mcs.run(st["bin"], (depth, n, u, s, st["dir"]), K, part, nparts, limit=max(1, lim))
    if bad:
        return {"evals": 1, "violations": [("I/O queue, depth %d, %d threads, uring %s, history %s: %s" % (depth, n, u, s, bad[0]), bad[1])]}
    return {"evals": res["execs"], "states": res["states"], "events": res["steps"], "distinct": res["outcomes"],
            "extra": {"schedules_cut_by_state_cache": res["pruned"], "harness_runs": 1, "cpu_s_K%d_workers%d" % (K, n): round(time.time() - t0, 2), "schedules_K%d_workers%d" % (K, n): res["execs"], "incomplete_runs": 0 if res["complete"] else 1},
            "samples": ["depth %d threads %d uring %s K=%d history %s: %d schedules" % (depth, n, u, K, s, res["execs"])] if hash(j) % 97 == 0 else []}

def run(chk):
    b, path = mcs.build("mcs_ioq", "mcs_ioq")
    d = vc.ramscratch("ioq")
    os.mkdir(d + "/d"); open(d + "/f", "w").write("hello"); open(d + "/d/a", "w")
    js = []
    for j in jobs():
        c = cost(j)
        js += [(*j, p, c) for p in range(c)]
    js.sort(key=lambda j: -j[0] * j[2])
    def init(st): st["bin"] = path; st["dir"] = d; st["deadline"] = chk.deadline
    vc.parallel(js, worker, chk, init=init)
    if chk.extra.get("incomplete_runs"): chk.truncated = True

if __name__ == "__main__":
    vc.main("C03", "model_checking",
            "All schedules with at most K deviations (preemptions, spurious wake-ups and CAS failures, io_uring submission/completion deviations; K=1..3 per history) of the real ioq.c, with one or two workers, for every history of the listed family; outcome of every request, leaks, deadlock, races and stray accesses checked in each.",
            run,
            ["Atomics are executed sequentially consistently; weaker outcomes are covered only through the vector-clock race detector, which honours the memory orders.",
             "io_uring is replaced by a model of the kernel that may complete requests in any order and submit short."])
