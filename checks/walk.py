#!/usr/bin/env python3
"""C01 (exactly-once traversal) and C02 (order): exhaustive over small hierarchies x walk configurations."""
import sys, os, itertools, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vc, model
from model import join

PID = sys.argv[1]
THOROUGH = vc.TIER == "thorough"
NODES = 7 if THOROUGH else 6
STRATS = ["bfs", "dfs", "ids", "eds"]
CPUOPT = ["nofile 256 256"]

def configs(quick_small):
    for S in STRATS:
        for j in (1, 2, 3, 8):
            for s in (0, 1):
                for post in (0, 1):
                    yield S, j, s, post

LIMITS = [(0, None), (1, None), (0, 1), (2, None), (0, 0), (1, 1), (1, 2), (2, 2), (0, 2), (2, 1), (3, None), (0, 3)]

def expected(roots, mind, maxd):
    return [p for r, n in roots for p, _, d in model.walk(r, n) if mind <= d <= (maxd if maxd is not None else 10**9)]

def check_run(res, roots, S, j, s, post, mind, maxd, sep=b"\n"):
    """-> None or a description of what is wrong"""
    if res.timeout: return "hang"
    if res.sig is not None or res.status != 0: return "status"
    if PID == "C01" and res.err: return "stderr"
    if res.out and not res.out.endswith(sep): return "unterminated output"
    got = res.lines(sep)
    exp = expected(roots, mind, maxd)
    if PID == "C01":
        if collections.Counter(got) != collections.Counter(exp): return "visited set"
        return None
    # C02
    if collections.Counter(got) != collections.Counter(exp): return "visited set"
    if s:
        o = model.sorted_order(roots, S, mind, maxd if maxd is not None else 10**9, bool(post))
        if o is not None:
            if got != o: return "sorted order"
            return None
    # constraints.  With duplicate roots the same path occurs several times; skip those for the pairwise constraint.
    full = expected(roots, 0, None)
    if len(set(full)) == len(full):
        pos = {p: i for i, p in enumerate(got)}
        for r, n in roots:
            stack = []
            for p, nd, d in model.walk(r, n):
                del stack[d:]
                if d and p in pos:
                    for q in stack:
                        if q in pos and ((pos[q] > pos[p]) != bool(post)): return "parent/child order"
                stack.append(p)
        if not post and (S == "ids" or (S == "bfs" and j == 1)) or (not post and S == "bfs" and s):
            dep = {p: d for r, n in roots for p, _, d in model.walk(r, n)}
            ds = [dep[p] for p in got]
            if ds != sorted(ds): return "depth order"
    return None

def cmdline(S, j, s, post, mind, maxd, roots):
    a = ["-j%d" % j, "-S", S]
    if s: a.append("-s")
    a += [r for r in roots]
    if mind: a += ["-mindepth", str(mind)]
    if maxd is not None: a += ["-maxdepth", str(maxd)]
    if post: a.append("-depth")
    return a

def winit(st):
    st["srv"] = vc.Server(BFSX)
    st["dir"] = os.path.join(RAM, "w%d" % os.getpid())
    os.mkdir(st["dir"])

def fail(res, job, what, cfg):
    return ("%s: %s" % (what, cfg), "argv: %r\njob: %r\n%s" % (res.argv, job, res.brief()))

def run_cases(job, roots, tree_desc, cfgs, cwd):
    """cfgs: iterable of (argv, opts, (S,j,s,post,mind,maxd), sep)"""
    srv = vc.wstate()["srv"]
    out = dict(evals=0, states=0, events=0, distinct=0, violations=[], samples=[])
    baselines = {}; sts = set()
    for argv, opts, (S, j, s, post, mind, maxd), sep in cfgs:
        res = srv.run(argv, cwd, opts=opts)
        out["evals"] += 1; sts.add((S, post, mind, maxd, s)); out["events"] += res.out.count(sep)
        if len(res.out.split(sep)) > 2: out["distinct"] += 1
        w = check_run(res, roots, S, j, s, post, mind, maxd, sep)
        if w is None and PID == "C02" and s and post:
            # no closed form: the order must be the same for every thread count
            key = (S, mind, maxd, tuple(r for r, _ in roots))
            b = baselines.setdefault(key, res.out)
            if b != res.out: w = "thread-count dependent sorted order"
        if w:
            out["violations"].append(fail(res, tree_desc, w, " ".join(map(lambda a: a if isinstance(a, str) else repr(a), res.argv[1:]))[:200]))
            if len(out["violations"]) > 3: break
    out["states"] = len(sts)
    if out["evals"]: out["samples"].append("tree %s: e.g. %s" % (tree_desc[:120], " ".join(map(str, cfgs[-1][0]))[:160]))
    return out

def fresh(name):
    st = vc.wstate()
    st["n"] = st.get("n", 0) + 1
    d = os.path.join(st["dir"], "t%d" % st["n"])
    os.mkdir(d)
    return d

def work(job):
    import shutil
    kind = job[0]
    d = fresh(kind)
    cwd = os.fsencode(d)
    try:
        if kind == "small":
            shape, perm, level = job[1], job[2], job[3]
            node = model.label(shape, perm=perm)
            model.make(cwd, b"r", node)
            roots = [(b"r", node)]
            cf = []
            for S, j, s, post in configs(level):
                lims = LIMITS if level >= 1 else [(0, None), (1, 2), (0, 1), (2, None)]
                for (mind, maxd) in lims:
                    if level == 0 and (mind, maxd) != (0, None) and j in (3, 8): continue
                    cf.append((cmdline(S, j, s, post, mind, maxd, [b"r"]), CPUOPT + (["nouring"] if j == 3 else []), (S, j, s, post, mind, maxd), b"\n"))
            return run_cases(job, roots, repr(shape), cf, cwd)
        if kind == "env":
            # environment answers: chunked directory reads, file systems without d_type, delayed opens
            shape = job[1]
            node = model.label(shape)
            model.make(cwd, b"r", node)
            roots = [(b"r", node)]
            cf = []
            dirs = [p for p, n, dd in model.walk(b"r", node) if n[0] == 'd']
            envs = []
            for L in (32, 56, 64, 96, 128):
                envs.append([vc.rule("getdents", "*", 0, 0, "L", L)])
            envs.append([vc.rule("getdents", "*", 0, 0, "U", 0)])
            envs.append([vc.rule("getdents", "*", 0, 0, "U", 0), vc.rule("getdents", "*", 0, 0, "L", 64)])
            for p in dirs:
                envs.append([vc.rule("open", p, 0, 0, "D", 1500)])
                envs.append([vc.rule("getdents", p, 0, 0, "D", 1500)])
            for env in envs:
                slow = b" D" in env[0]
                for S in STRATS:
                    for j in ((2, 4) if slow else (1, 2, 4)):
                        for s in (0, 1):
                            for post in (0, 1):
                                cf.append((cmdline(S, j, s, post, 0, None, [b"r"]), CPUOPT + ["nouring"] + env, (S, j, s, post, 0, None), b"\n"))
            return run_cases(job, roots, "env " + repr(shape), cf, cwd)
        if kind == "roots":
            # several roots and root spellings
            node = model.label(((('f',), 'f'), 'f', ()))
            other = model.label((('f',), ()))
            model.make(cwd, b"r", node); model.make(cwd, b"q", other); model.make(cwd, b"f", ('f', 0))
            os.mkdir(os.path.join(cwd, b"sub"))
            absr = os.path.join(cwd, b"r")
            top = ('d', {b"r": node, b"q": other, b"f": ('f', 0), b"sub": ('d', {})})
            spell = {b"r": node, b"r/": node, b"r//": node, b"./r": node, b".//r/": node, b"r/.": node, b"q": other, b"f": ('f', 0), absr: node, absr + b"/": node,
                     b".": top, b"./": top, b"sub/..": top, b"r/a": node[1][b"a"], b"q/../r": node}
            cf_all = dict(evals=0, states=0, events=0, distinct=0, violations=[], samples=[])
            lists = [[a] for a in spell] + [[a, b] for a in spell for b in spell] + [[b"f", b"r", b"q"], [b"q", b"r", b"q", b"r/a"], []]
            part, nparts = job[1]
            for i, rl in enumerate(lists):
                if i % nparts != part: continue
                roots = [(r, spell[r]) for r in (rl or [b"."])]
                cf = []
                for S, j, s, post in configs(1):
                    if j == 3: continue
                    for mind, maxd in [(0, None), (1, None), (0, 1), (1, 1)]:
                        if (mind, maxd) != (0, None) and (j == 8 or len(rl) > 1 and not THOROUGH and j == 2): continue
                        cf.append((cmdline(S, j, s, post, mind, maxd, rl), CPUOPT, (S, j, s, post, mind, maxd), b"\n"))
                r = run_cases(job, roots, "roots %r" % rl, cf, cwd)
                for k in ("evals", "states", "events", "distinct"): cf_all[k] += r[k]
                cf_all["violations"] += r["violations"]; cf_all["samples"] = r["samples"][:1]
            return cf_all
        if kind == "wide":
            namelen, count, mixed = job[1], job[2], job[3]
            kids = {}
            for i in range(count):
                base = (b"%d" % i).rjust(min(6, namelen), b"x") if namelen >= 6 else None
                if base is None:
                    a = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
                    base = b""
                    v = i
                    for _ in range(namelen): base += a[v % 62:v % 62 + 1]; v //= 62
                    if v: break
                n = base.ljust(namelen, b"n")
                kids[n] = ('d', {b"k": ('f', 0)}) if mixed and i % mixed == 0 else ('f', 0)
            node = ('d', kids)
            model.make(cwd, b"r", node)
            roots = [(b"r", node)]
            cf = []
            for S in STRATS:
                for j, s, post in ((1, 0, 0), (4, 0, 1), (2, 1, 0), (8, 1, 1)):
                    cf.append((cmdline(S, j, s, post, 0, None, [b"r"]), [], (S, j, s, post, 0, None), b"\n"))
            cf.append((cmdline("bfs", 4, 0, 0, 0, None, [b"r"]), ["nouring"], ("bfs", 4, 0, 0, 0, None), b"\n"))
            return run_cases(job, roots, "wide namelen=%d count=%d mixed=%d" % (namelen, count, mixed), cf, cwd)
        if kind == "deep":
            names, leaf = job[1], job[2]
            # a chain of directories named names[0], names[1], ...; built with dir fds since paths exceed PATH_MAX
            node = ('f', 0) if leaf else ('d', {})
            extra = ('f', 0)
            chain = node
            for n in reversed(names): chain = ('d', {n: chain, b"!": extra})
            fd = os.open(cwd, os.O_RDONLY)
            os.mkdir(b"r", dir_fd=fd); nfd = os.open(b"r", os.O_RDONLY, dir_fd=fd); os.close(fd); fd = nfd
            for i, n in enumerate(names):
                os.close(os.open(b"!", os.O_CREAT | os.O_WRONLY, 0o644, dir_fd=fd))
                if leaf and i == len(names) - 1: os.close(os.open(n, os.O_CREAT | os.O_WRONLY, 0o644, dir_fd=fd))
                else:
                    os.mkdir(n, dir_fd=fd); nfd = os.open(n, os.O_RDONLY, dir_fd=fd); os.close(fd); fd = nfd
            os.close(fd)
            roots = [(b"r", chain)]
            cf = []
            for S in STRATS:
                if len(names) > 60 and S in ("ids",):
                    combos = ((1, 0, 0), (4, 1, 1))
                else:
                    combos = ((1, 0, 0), (4, 0, 1), (2, 1, 0), (1, 1, 1))
                for j, s, post in combos:
                    cf.append((cmdline(S, j, s, post, 0, None, [b"r"]), ["nofile 64 64"] if s else [], (S, j, s, post, 0, None), b"\n"))
            cf.append((cmdline("bfs", 2, 0, 1, 1, len(names) - 1, [b"r"]), [], ("bfs", 2, 0, 1, 1, len(names) - 1), b"\n"))
            return run_cases(job, roots, "deep n=%d len0=%d leaf=%d" % (len(names), len(names[0]), leaf), cf, cwd)
        if kind == "comb":
            n, per = job[1], job[2]
            kids = {b"d%d" % i: ('d', {b"f%d" % k: (('f', 0) if k else ('d', {})) for k in range(per)}) for i in range(n)}
            node = ('d', kids)
            model.make(cwd, b"r", node)
            roots = [(b"r", node)]
            cf = []
            for S in STRATS:
                for j, s, post, o in ((1, 0, 0, []), (2, 0, 1, []), (8, 1, 0, []), (8, 0, 1, ["nouring"]), (3, 0, 0, ["nouring"]), (3, 1, 1, ["nofile 24 24"])):
                    cf.append((cmdline(S, j, s, post, 0, None, [b"r"]), o, (S, j, s, post, 0, None), b"\n"))
            return run_cases(job, roots, "comb n=%d per=%d" % (n, per), cf, cwd)
        if kind == "bytes":
            # every byte value in a name (except NUL and /), NUL-separated output
            kids = {}
            for b in range(1, 256):
                if b == 47: continue
                kids[bytes([b]) if b != 46 else b"..."] = ('d', {bytes([b, 65]): ('f', 0)}) if b % 3 == 0 else ('f', 0)
            kids[b"x" * 255] = ('d', {b"y" * 255: ('f', 0)})
            node = ('d', kids)
            model.make(cwd, b"r", node)
            roots = [(b"r", node)]
            cf = []
            for S, j, s, post in configs(1):
                cf.append((cmdline(S, j, s, post, 0, None, [b"r"]) + ["-print0"], [], (S, j, s, post, 0, None), b"\0"))
            return run_cases(job, roots, "all byte values", cf, cwd)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        if os.path.isdir(d): vc.subprocess.run(["rm", "-rf", d])

def main(chk):
    global BFSX, RAM
    b = vc.Build()
    BFSX = b.bfsx()
    RAM = vc.ramscratch("walk")
    jobs = []
    ntrees = 0
    for n in range(1, NODES + 1):
        for sh in model.shapes(n):
            ntrees += 1
            for perm in ((0, 1) if n <= 5 else (0,)):
                jobs.append(("small", sh, perm, 1 if n <= 4 + THOROUGH else 0))
    for n in range(2, 6 + THOROUGH):
        for sh in model.shapes(n):
            if n <= 4 or PID == "C02" or THOROUGH: jobs.append(("env", sh))
    # the biggest first, for balance
    big = []
    for n, per in ((1, 3), (60, 2), (300, 1), (700, 3), (4200, 1)) + (((9000, 1), (2000, 4)) if THOROUGH else ()):
        big.append(("comb", n, per))
    for namelen, counts in ((1, (0, 1, 62)), (5, (900, 1365, 2048, 2300)), (100, (250, 255, 256, 257, 258, 262, 524)), (200, (140, 145, 146, 147, 148, 292)), (255, (110, 116, 117, 118, 119, 234, 235))):
        for c in counts:
            for mixed in (0, 7): big.append(("wide", namelen, c, mixed))
    if THOROUGH:
        for c in range(240, 275): big.append(("wide", 100, c, 3))
        for c in range(108, 122): big.append(("wide", 255, c, 3))
    for k in list(range(1, 34)) + [40, 64, 100, 150] + ([250, 400] if THOROUGH else []):
        big.append(("deep", [b"d%d" % i for i in range(k)], k % 2))
    # total path length crossing PATH_MAX (4096) at every alignment
    for off in range(0, 16):
        big.append(("deep", [b"n" * (240 + off)] * 17, off % 2))
    big.append(("deep", [b"m" * 255] * 40, 1))
    big.append(("deep", [b"m" * 99] * 90, 1))
    big.append(("bytes",))
    for i in range(8): big.append(("roots", (i, 8)))
    vc.parallel(big + jobs, work, chk, winit)
    chk.extra["hierarchies_enumerated"] = ntrees
    chk.extra["node_bound"] = NODES

if PID == "C01":
    vc.main("C01", "model_checking", "every directory tree with <= %d nodes x {bfs,dfs,ids,eds} x -j{1,2,3,8} x -s x -depth x depth limits, plus root spellings and wide/deep/comb families; non-trivial: at least two files visited" % NODES, main,
            ["hierarchies static during the walk", "io_uring and synchronous fallback back ends both used as available"])
else:
    vc.main("C02", "model_checking", "every directory tree with <= %d nodes x {bfs,dfs,ids,eds} x -j{1,2,3,8} x -s x -depth x depth limits, plus delayed opens/reads of each directory; order compared with a closed-form reference; non-trivial: at least two files visited" % NODES, main,
            ["strcoll() order in the C locale is byte order"])
