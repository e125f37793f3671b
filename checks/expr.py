#!/usr/bin/env python3
"""C06: every token sequence over an alphabet of operators, tests and actions, up to a length bound, against the reference grammar/evaluator."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vc, model, exprmodel as xm
from model import F

THOROUGH = vc.TIER == "thorough"
def t(s): return tuple(s.split(" "))
ALPHA_A = [t(x) for x in ("-print", "-name b", "( ", ") ", "! ", "-o", "-a", ", ", "-printf %p=", "-prune", "-quit", "-true", "-exclude")]
ALPHA_A = [tuple(w for w in x if w) for x in ALPHA_A]
ALPHA_B = ALPHA_A + [t(x) for x in ("-not", "-and", "-or", "-false", "-limit 1", "-limit 3", "-exit 3", "-exit", "-nohidden", "-type d", "-print0", "-maxdepth 1", "-mindepth 1", "-depth")]
# no-exclude alphabet for the longest sequences
ALPHA_C = [a for a in ALPHA_A if a[0] not in ("-true", "-quit", "-exclude")]

TREE_R = ('d', {b"a": ('d', {b"b": F, b"c": ('d', {b"b": F})}), b"b": ('d', {b"d": F}), b".h": ('d', {b"b": F})})
TREE_Q = ('d', {b"b": F, b"e": F})
ROOTS = [(b"q", TREE_Q), (b"r", TREE_R)]
TESTS = {
    "-name": lambda w, f: f.name == w[0].encode(),
    "-type": lambda w, f: f.node[0] == w[0],
    "-hidden": lambda w, f: f.name.startswith(b".") and f.name not in (b".", b".."),
    "-printf": lambda w, f: f.path + b"=",
}

def winit(st):
    st["srv"] = vc.Server(BFSX)

OPERATORS = ("-a", "-and", "-o", "-or")
def expect(toks, strat):
    for x in toks:
        if x[0] in (")", ","): return False   # before the expression starts these are paths
        if x[0] not in ("-depth", "-maxdepth", "-mindepth", "-nohidden"): break
    if strat != "dfs" and ("-depth",) in toks: return False  # order not specified
    try:
        return xm.simulate(toks, ROOTS, TESTS, strat)
    except xm.Bad:
        return None
    except xm.Unspecified:
        return False

def wrong(res, exp):
    if res.timeout: return "hang"
    if res.sig is not None: return "killed by signal %d" % res.sig
    if exp is None:
        if res.status == 0: return "malformed expression accepted"
        if res.out: return "malformed expression produced output"
        if not res.err: return "malformed expression rejected without a diagnostic"
        return None
    st, out = exp
    if res.out != out: return "output"
    if res.status != st: return "exit status"
    return None

def work(job):
    alpha_name, prefix, length, strat, extra = job
    alpha = {"A": ALPHA_A, "B": ALPHA_B, "C": ALPHA_C}[alpha_name]
    srv = vc.wstate()["srv"]
    out = dict(evals=0, states=0, events=0, distinct=0, violations=[], samples=[])
    def flush(batch):
        argvs = [a for a, _, _ in batch]
        for (args, toks, exp), res in zip(batch, srv.batch(argvs, CWD, opts=["nouring"])):
            w = wrong(res, exp)
            if w:
                # replay alone, in a fresh process, before reporting
                res = srv.run(args, CWD, opts=["nouring"])
                w = wrong(res, exp)
            if w: out["violations"].append(("%s: %s" % (w, " ".join(x for tk in toks for x in tk)), "argv: %r\nexpected: %r\n%s" % (res.argv, exp, res.brief())))
        out["evals"] += len(batch)
    batch = []
    for seq in itertools.product(alpha, repeat=length - len(prefix)):
        toks = list(prefix) + list(seq)
        if sum(1 for x in toks if x[0] == "(") != sum(1 for x in toks if x[0] == ")") and length > 4: continue  # unbalanced: covered at shorter lengths
        exp = expect(toks, strat)
        out["states"] += 1
        if exp is False: continue
        if exp is not None:
            out["events"] += exp[1].count(b"\n") + exp[1].count(b"=") + exp[1].count(b"\0")
            out["distinct"] += 1
        elif length > 4: continue  # malformed: covered at shorter lengths
        if toks and toks[0][0] in OPERATORS:
            # flags are (true) factors, so "-s -o X" is well-formed; without flags these must be rejected
            args = ["q", "r"] + [w for x in toks for w in x]
        else: args = ["-j1", "-s", "-S", strat, *extra, "q", "r"] + [w for x in toks for w in x]
        batch.append((args, toks, exp))
        if len(batch) >= 400: flush(batch); batch = []
        if len(out["violations"]) > 3: break
    if batch: flush(batch)
    if out["distinct"]: out["samples"].append(" ".join(map(str, args)))
    return out

def main(chk):
    global BFSX, CWD
    b = vc.Build(cflags="-g -O2")
    BFSX = b.bfsx()
    RAM = vc.ramscratch("expr")
    CWD = os.fsencode(RAM)
    for n, node in ROOTS: model.make(CWD, n, node)
    jobs = []
    def add(a, length, strat, extra=()):
        alpha = {"A": ALPHA_A, "B": ALPHA_B, "C": ALPHA_C}[a]
        k = 2 if length >= 5 else min(1, length)
        for prefix in itertools.product(alpha, repeat=k): jobs.append((a, prefix, length, strat, list(extra)))
    for L in range(0, 4):
        add("B", L, "dfs"); add("B", L, "bfs")
        for o in (0, 1, 2): add("B", L, "dfs", ["-O%d" % o])
    add("B", 4, "dfs")
    add("A", 5, "dfs")
    add("C", 6, "dfs")
    if THOROUGH:
        add("B", 4, "bfs"); add("A", 5, "bfs"); add("A", 6, "dfs"); add("B", 5, "dfs"); add("C", 7, "dfs")
        for o in (0, 1, 2): add("B", 4, "dfs", ["-O%d" % o]); add("A", 5, "dfs", ["-O%d" % o])
    vc.parallel(jobs, work, chk, winit)

vc.main("C06", "model_checking", "every sequence of <= 4 tokens from a 27-token alphabet, <= 5 from 13 and <= 6 from 10 (operators, parentheses, -exclude, tests, actions, options), well-formed or not, on a two-root hierarchy with every file evaluated; states: token sequences; transitions: action outputs compared; non-trivial: well-formed", main,
        ["-s -S dfs / -s -S bfs visit orders as established by C02"])
