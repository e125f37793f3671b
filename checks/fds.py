#!/usr/bin/env python3
"""C11: descriptor limits, EMFILE at every open and pair of opens, leaks and inheritance."""
import sys, os, itertools, collections, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vc, model

THOROUGH = vc.TIER == "thorough"
STRATS = ("bfs", "dfs", "ids", "eds")
F = ("f", 0)
def D(**k): return ("d", {a.encode(): b for a, b in k.items()})

def big():
    yield "wide", ("d", {b"d%02d" % i: D(f=F, s=D(g=F, h=D())) for i in range(9)})
    n = D(f=F)
    for i in range(24): n = ("d", {b"a": n, b"f%d" % i: F, b"e": D(x=F)} if i % 3 == 0 else {b"a": n})
    yield "deep", n
    n = D(f=F)
    for i in range(7): n = ("d", {b"a": n, b"b": n} if i % 2 else {b"a": n, b"z": F})
    yield "bushy", n
    # longer than PATH_MAX: opened component by component
    n = D(f=F, g=D(h=F))
    for i in range(20): n = ("d", {b"x" * 250: n, b"y": D(w=F)} if i % 4 == 0 else {b"x" * 250: n})
    yield "long", n

    # more directories that cannot be opened than there are descriptors (walked as an unprivileged user)
    yield "denied", ("d", {b"%02d" % i: ("d", {b"f": F}) if i % 4 else D(s=D(f=F), t=D(u=D(g=F))) for i in range(80)})

DENIED = lambda: [os.path.join(CWD, "denied", "r", "%02d" % i) for i in range(80) if i % 4]
def more(name): return ["uid 65534"] if name == "denied" else []

def exps():
    """(arguments, descriptors needed besides the standard ones)"""
    return [(["-print"], 2), (["-depth", "-print"], 2), (["-empty", "-print", "-o", "-print"], 4), (["-L", "-print"], 2), (["-size", "-9999", "-print"], 2),
            (["-fprint", "/dev/null", "-fprint", "/dev/zero", "-print"], 4)]

EXEC = lambda: [(["-exec", SPY, "-", "0", "{}", ";", "-print"], 6), (["-execdir", SPY, "-", "0", "{}", ";", "-print"], 6), (["-execdir", SPY, "-", "0", "{}", "+"], 6),
        (["-fprint", "/dev/null", "-exec", SPY, "-", "0", "{}", "+"], 7), (["-ok", SPY, "-", "0", "{}", ";"], 6), (["-okdir", SPY, "-", "0", "{}", ";"], 6)]

def winit(st): st["srv"] = vc.Server(BFSX)
def argv(S, j, s, e): return ["-S", S, "-j%d" % j, *(["-s"] if s else []), "r", *e]

def limits_small(job):
    """All small hierarchies, in batches, under every small limit."""
    shapes, S, j, N, uring = job
    srv = vc.wstate()["srv"]; out = dict(evals=0, states=0, events=0, distinct=0, violations=[])
    opts = ["nofile %d %d" % (N, N)] + ([] if uring else ["nouring"])
    for e, need in exps()[:3]:
        if N < 3 + need: continue
        av = [["-S", S, "-j%d" % j, "-s", b"%d/r" % i, *e] for i in shapes]
        rs = srv.batch(av, SMALL, opts=opts + ["timeout 20000"])
        for i, a, r in zip(shapes, av, rs):
            out["evals"] += 1; out["states"] += 1; out["distinct"] += 1; out["events"] += r.out.count(b"\n")
            exp = EXP[i]
            if r.status != 0 or r.err or collections.Counter(r.out.split(b"\n")[:-1]) != exp:
                r = srv.run(a, SMALL, opts=opts)
                if r.status != 0 or r.err or r.timeout or collections.Counter(r.out.split(b"\n")[:-1]) != exp:
                    out["violations"].append(("with %d descriptors the result differs: bfs %s" % (N, " ".join(map(str, a))), "opts %r\n%s\nexpected %s" % (opts, r.brief(), sorted(exp))))
                    return out
    return out

def limits_big(job):
    name, S, j, s, uring, k = job
    srv = vc.wstate()["srv"]; out = dict(evals=0, states=0, events=0, distinct=0, violations=[])
    e, need = (exps() + EXEC())[k]
    cwd = os.path.join(CWD, name)
    uo = ([] if uring else ["nouring"]) + more(name)
    key = lambda r: (r.status, r.sig, r.timeout, sorted(norm(r.out)), sorted(r.err.split(b"\n")))
    base = srv.run(argv(S, j, s, e), cwd, opts=uo + ["nofile 1024 1024", "stdin " + "y\n" * 4000])
    out["evals"] += 1
    if base.timeout or base.sig is not None: out["violations"].append(("crash or hang: bfs %s on %s" % (" ".join(argv(S, j, s, e)), name), base.brief())); return out
    for N in range(3 + need, 3 + need + (12 if THOROUGH else 5)):
        for soft in (N, 4):
            # a soft limit below the hard one is raised by bfs itself
            if soft == 4 and N > 3 + need and not THOROUGH: continue
            if soft == 4 and need > 2: continue
            opts = uo + ["nofile %d %d" % (min(soft, N), N), "stdin " + "y\n" * 4000]
            r = srv.run(argv(S, j, s, e), cwd, opts=opts)
            out["evals"] += 1; out["states"] += 1; out["distinct"] += 1; out["events"] += r.out.count(b"\n")
            if key(r) != key(base):
                out["violations"].append(("with %d descriptors the result differs: bfs %s on %s" % (N, " ".join(argv(S, j, s, e)), name), "opts %r\n%s\nunlimited: %s" % (opts, r.brief(), base.brief())))
                return out
    return out

REC = re.compile(rb"^R \d+:")
def norm(o):
    """Lines; of the command records only directory and arguments."""
    out = []
    for l in o.split(b"\n"):
        if l.startswith(b"R "):
            m = re.match(rb"R (\d+):", l); i = m.end() + int(m.group(1)); f = l[i + 1:].split(b" ", 3)
            l = l[:i] + b" " + f[3]
        out.append(l)
    return out

def opens(trace, j=1, roots=(b"r",)):
    """Replay a trace -> (problems, open walk descriptors at each injection)"""
    live = {}; bad = []; at = []
    if j > 1:
        # lines of different threads may be swapped: only balance the books
        o = collections.Counter(m.group(1) for m in re.finditer(rb"^open (.*) = \d+ 0$", trace, re.M))
        c = collections.Counter(m.group(1) for m in re.finditer(rb"^close (.*) = \d+ 0 0$", trace, re.M))
        e = [m.group(1) for m in re.finditer(rb"^close (.*) = -?\d+ -1 ", trace, re.M)]
        if e: bad.append("failed close of %r" % e[0])
        elif c - o: bad.append("closed more often than opened: %r" % (c - o))
        n = 0; at = []
        for l in trace.split(b"\n"):
            if l.startswith((b"open r ", b"open r/")) and b" = -1 " not in l: n += 1
            elif l.startswith((b"close r ", b"close r/")): n -= 1
            elif l.startswith(b"INJECT open"): at.append(n - j)
        return bad, at, dict(o - c)
    for l in trace.split(b"\n"):
        m = re.match(rb"open (.*) = (-?\d+) (\d+)$", l)
        if m:
            fd = int(m.group(2))
            if fd >= 0:
                if fd in live: bad.append("descriptor %d (%s) was opened again without being closed" % (fd, live[fd].decode("latin-1")))
                live[fd] = m.group(1)
            continue
        m = re.match(rb"close (.*) = (-?\d+) (-?\d+) (\d+)$", l)
        if m:
            fd = int(m.group(2))
            if m.group(3) != b"0" or fd not in live and fd > 2: bad.append("close of %d (%s), which is not open" % (fd, m.group(1).decode("latin-1")))
            live.pop(fd, None)
        elif l.startswith(b"INJECT open"): at.append(sum(any(p == q or p.startswith(q + b"/") for q in roots) for p in live.values()))
    return bad, at, {k: v for k, v in live.items() if k > 2}

def emfile(job):
    """EMFILE at each open, and at each pair of opens, of a whole run; and every descriptor is closed exactly once."""
    name, S, j, s, k = job
    srv = vc.wstate()["srv"]; out = dict(evals=0, states=0, events=0, distinct=0, violations=[], extra={})
    e, need = exps()[k]
    cwd = os.path.join(CWD, name)
    a = argv(S, j, s, e)
    key = lambda r: (r.status, r.sig, r.timeout, r.out if s and j == 1 else sorted(r.out.split(b"\n")), r.err)
    base = srv.run(a, cwd, opts=["nouring", "trace"])
    out["evals"] += 1
    bad, _, live = opens(base.trace, j)
    if bad or live: out["violations"].append(("descriptors: %s" % (bad[0] if bad else "left open: %r" % live), "bfs %s in %s\n%s" % (" ".join(a), name, base.brief()))); return out
    seq = re.findall(rb"^open (\S+) = ", base.trace, re.M)
    mine = [i + 1 for i, p in enumerate(seq) if p == b"r" or p.startswith(b"r/")]
    plans = [(i,) for i in mine[:60]]
    if j == 1: plans += [(i, m) for i, m in itertools.combinations(mine[:40], 2)][::1 if THOROUGH else 5]
    for pl in plans:
        # the retry of a failed open is an occurrence of its own
        opts = ["nouring", "trace"] + [vc.rule("open", "*", i, i, "E", vc.E("EMFILE")) for i in pl[:1]]
        if len(pl) > 1: opts = ["nouring", "trace"] + [vc.rule("open", seq[i - 1], 1 + sum(x == seq[i - 1] for x in seq[:i - 1]), 1 + sum(x == seq[i - 1] for x in seq[:i - 1]), "E", vc.E("EMFILE")) for i in pl]
        r = srv.run(a, cwd, opts=opts)
        out["evals"] += 1; out["states"] += 1; out["events"] += r.trace.count(b"\n")
        bad, at, live = opens(r.trace, j)
        w = None
        if r.timeout or r.sig is not None: w = "crash or hang"
        elif bad: w = "descriptors: " + bad[0]
        elif live: w = "descriptors left open: %r" % live
        elif j == 1 and at and min(at) >= 3:
            # at least one open directory is neither being read nor the base of this open (with more threads, they may all be held by queued I/O)
            out["distinct"] += 1
            if key(r) != key(base): w = "the result differs although descriptors could have been released"
        elif r.status == 0 and key(r) != key(base): w = "the result differs without an error"
        if w:
            out["violations"].append(("%s: EMFILE at open %s of bfs %s on %s" % (w, ",".join(map(str, pl)), " ".join(a), name), "opts %r, open at the failures: %r\n%s\nwithout: %s" % (opts, at, r.brief(), base.brief())))
            return out
    return out

def inherit(job):
    """Commands inherit the standard descriptors only, and the original limit."""
    name, S, j, uring, k, nof, closed = job
    srv = vc.wstate()["srv"]; out = dict(evals=0, states=0, events=0, distinct=0, violations=[])
    e, need = EXEC()[k]
    if "-" in e: e = [LOG if x == "-" else x for x in e]
    log = os.path.join(CWD, "log.%d" % os.getpid())
    e = [log if x == LOG else x for x in e]
    if os.path.exists(log): os.unlink(log)
    opts = ["nofile %d %d" % nof, "closed %d" % closed] + ([] if uring else ["nouring"]) + (["stdin " + "y\n" * 4000] if not closed & 1 else [])
    r = srv.run(argv(S, j, True, e), os.path.join(CWD, name), opts=opts)
    out["evals"] += 1; out["states"] += 1
    recs = vc.spy_records(open(log, "rb").read()) if os.path.exists(log) else []
    out["events"] += len(recs)
    want = b"".join(b"%d," % i for i in range(3))
    for cwd, fds, n, args in recs:
        out["distinct"] += 1
        ok = [b"".join(b"%d," % i for i in range(3) if not closed & (1 << i)), want]
        if fds not in ok or n != nof[0]:
            out["violations"].append(("a command inherits descriptors %s and limit %d (expected %s and %d): bfs %s" % (fds.decode(), n, ok[0].decode(), nof[0], " ".join(argv(S, j, True, e))), "opts %r\n%s" % (opts, r.brief())))
            return out
    if not recs and not (k >= 4): out["violations"].append(("no command was run: bfs %s" % " ".join(argv(S, j, True, e)), "opts %r\n%s" % (opts, r.brief())))
    return out

LOG = object()
def work(j): return {"s": limits_small, "b": limits_big, "e": emfile, "i": inherit}[j[0]](j[1:])

def main(chk):
    global BFSX, CWD, SPY, SMALL, EXP
    b = vc.Build(cflags="-g -O1")
    BFSX = b.bfsx(); SPY = vc.build_spy(b.dir)
    CWD = vc.ramscratch("fds")
    SMALL = os.path.join(CWD, "small"); os.mkdir(SMALL); EXP = {}
    i = 0
    for n in range(1, (7 if THOROUGH else 6) + 1):
        for sh in model.shapes(n):
            d = os.path.join(SMALL, "%d" % i); os.mkdir(d); t = model.label(sh); model.make(os.fsencode(d), b"r", t)
            EXP[i] = collections.Counter(p for p, _, _ in model.walk(b"%d/r" % i, t)); i += 1
    chk.extra["small_hierarchies"] = i
    for name, t in big():
        if name == "long":
            d = os.path.join(CWD, name); os.mkdir(d); fd = os.open(d, os.O_RDONLY)
            def mk(fd, nm, node):
                if node[0] == "f": os.close(os.open(nm, os.O_CREAT | os.O_WRONLY, dir_fd=fd)); return
                os.mkdir(nm, dir_fd=fd); f = os.open(nm, os.O_RDONLY, dir_fd=fd)
                for c, x in node[1].items(): mk(f, c, x)
                os.close(f)
            mk(fd, b"r", t); os.close(fd)
        else:
            d = os.path.join(CWD, name); os.mkdir(d); model.make(os.fsencode(d), b"r", t)
    for d in DENIED(): os.chmod(d, 0)
    os.chmod(CWD, 0o755)
    jobs = []
    for S in STRATS:
        for name, _ in big():
            for j in (1, 2, 4):
                for s in (False, True):
                    for u in (True, False):
                        for k in range(len(exps())):
                            if u or j > 1 or THOROUGH: jobs.append(("b", name, S, j, s, u, k))
                    if name in ("wide", "bushy", "deep"):
                        for k in (0, 1, 3) if not s else (0, 1): jobs.append(("e", name, S, j, s, k))
            for k in range(len(EXEC())):
                if name not in ("long", "denied") and (name == "deep" or THOROUGH): jobs.append(("b", name, S, 2 + k % 2, True, bool(k % 3), len(exps()) + k))
        for k in range(len(EXEC())):
            for j in (1, 3):
                for u in (True, False):
                    for nof in ((256, 1024), (64, 64), (1024, 1024), (16, 64)):
                        if THOROUGH or nof[0] in (256, 64): jobs.append(("i", "deep", S, j, u, k, nof, 0))
            jobs.append(("i", "deep", S, 2, True, k, (256, 1024), 1))
    idx = list(range(i))
    for S in STRATS:
        for j in (1, 2, 3, 8):
            for N in (5, 6, 7, 8, 9, 12):
                for u in (True, False):
                    if j == 1 and u: continue
                    if not THOROUGH and N in (9,) : continue
                    for c in range(0, i, 120): jobs.append(("s", idx[c:c + 120], S, j, N, u))
    jobs.sort(key=lambda j: "ebis".index(j[0]))
    vc.parallel(jobs, work, chk, winit)

vc.main("C11", "model_checking", "every hierarchy up to the node bound and five large ones (wide, deep, bushy, deeper than PATH_MAX, and one with more directories that cannot be opened than descriptors), for every strategy, thread count and small descriptor limit (and with soft < hard limits), compared with an unlimited run or the model; EMFILE injected at every open and pairs of opens of whole runs, with the life of every descriptor traced; descriptors and limits seen by every command run", main,
        ["the limit leaves 2 descriptors for the walk besides those the expression's own actions need at once", "descriptor tracing covers libc calls; with io_uring, leaks show up through the limits themselves"])
