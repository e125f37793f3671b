#!/usr/bin/env python3
"""C18: every arrangement of a few directories, files and symbolic links (to every node, to themselves, to nothing), walked with -P, -H and -L."""
import sys, os, itertools, collections, stat, errno, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vc, model
from model import join

THOROUGH = vc.TIER == "thorough"
NODES = 5
NAMES = [b"b", b"a", b"b.c", b"B", b"c"]

def winit(st):
    st["srv"] = vc.Server(BFSX); st["n"] = 0
    st["dir"] = os.path.join(RAM, "w%d" % os.getpid()); os.mkdir(st["dir"])

# ---------------------------------------------------------------- arrangements
def nodes(shape, path=b"r"):
    """-> [(path, 'd' or 'f')]"""
    yield path, "f" if shape == "f" else "d"
    if shape != "f":
        for i, c in enumerate(shape): yield from nodes(c, path + b"/" + NAMES[i])

def arrangements():
    """-> (entries) with entries = [(path, 'd'|'f'|target)]"""
    for n in range(1, NODES + 1):
        for shape in model.shapes(n):
            ns = list(nodes(shape))
            leaves = [p for p, k in ns if k == "f"]
            opts = []
            for p in leaves:
                o = [None, b"nope"]
                for q, _ in ns: o.append(os.path.relpath(q, os.path.dirname(p)))
                q = next((q for q in leaves if q != p), None)
                if q: o.append(os.path.relpath(q, os.path.dirname(p)) + b"/b")
                opts.append(o)
            for choice in itertools.product(*opts):
                nl = sum(c is not None for c in choice)
                if n == NODES and not THOROUGH and nl > 2: continue
                m = dict(zip(leaves, choice))
                yield [(p, m.get(p) or k) for p, k in ns]

def build(d, ents):
    for p, k in ents:
        q = os.path.join(d, p)
        if k == "d": os.mkdir(q)
        elif k == "f": os.close(os.open(q, os.O_WRONLY | os.O_CREAT, 0o644))
        else: os.symlink(k, q)
    os.symlink(b"r", os.path.join(d, b"k"))

# ---------------------------------------------------------------- reference walk
TY = {stat.S_IFDIR: "d", stat.S_IFREG: "f", stat.S_IFLNK: "l"}
def tch(st): return TY[stat.S_IFMT(st.st_mode)]

def look(d, p):
    q = os.path.join(d, p)
    try: ls = os.lstat(q)
    except OSError as e: return None, e.errno
    if not stat.S_ISLNK(ls.st_mode): return ls, ls
    try: return ls, os.stat(q)
    except OSError as e: return ls, e.errno

def ref(d, roots, mode):
    """-> visits [(path, y, Y, ino, T, X)], errors [path]"""
    vis, errs = [], []
    def go(p, depth, anc):
        ls, st = look(d, p)
        if ls is None: errs.append(p); return
        follow = mode == "L" or mode == "H" and depth == 0
        islnk = stat.S_ISLNK(ls.st_mode)
        if not follow: me = ls
        elif isinstance(st, int):
            if st == errno.ELOOP: errs.append(p); return
            me = ls
        else: me = st
        if mode == "L" and tch(me) == "d" and (me.st_dev, me.st_ino) in anc: errs.append(p); return
        Y = "L" if st == errno.ELOOP else "N" if isinstance(st, int) else tch(st)
        X = islnk if follow else isinstance(st, int)
        vis.append((p, tch(me), Y, me.st_ino, tch(me) == "l", X))
        if tch(me) == "d":
            for n in sorted(os.listdir(os.path.join(d, p))): go(join(p, n), depth + 1, anc | {(me.st_dev, me.st_ino)})
    for r in roots: go(r, 0, frozenset())
    return vis, errs

EXPR = ["-printf", "%y%Y %i %p\\n", ",", "-type", "l", "-printf", "T %p\\n", ",", "-xtype", "l", "-printf", "X %p\\n", ",", "-lname", "*", "-printf", "N %p\\n"]
def lines(v):
    p, y, Y, ino, T, X = v
    yield b"%s%s %d %s" % (y.encode(), Y.encode(), ino, p)
    if T: yield b"T " + p; yield b"N " + p
    if X: yield b"X " + p

def errpaths(err):
    out = set()
    for l in err.split(b"\n"):
        if not l: continue
        if not l.startswith(b"bfs: error: "): return None
        out.add(l[12:].split(b": ")[0])
    return out

def judge(r, d, roots, mode, uniq):
    if r.timeout or r.sig is not None: return "crash or hang"
    vis, errs = REF[(tuple(roots), mode)]
    es = errpaths(r.err)
    if es is None: return "unexpected message"
    if not uniq:
        want = collections.Counter(l for v in vis for l in lines(v))
        got = collections.Counter(r.lines())
        if got != want: return "printed %r too much, %r missing" % (list((got - want))[:4], list((want - got))[:4])
        if es != set(errs): return "errors about %r instead of %r" % (sorted(es), sorted(set(errs)))
        if (r.status != 0) != bool(errs): return "exit status %r with errors %r" % (r.status, errs)
        return None
    # -unique: each distinct object that can be reached, exactly once, by some valid path
    ids = {}
    for p, y, Y, ino, T, X in vis: ids.setdefault(ino, set()).add((y))
    seen = []; valid = {next(lines(v)) for v in vis}
    for l in r.lines():
        if l[1:2] == b" ":
            continue
        h, ino, p = l.split(b" ", 2)
        if l not in valid: return "wrong object or type: %r" % l
        seen.append(int(ino))
    if len(set(seen)) != len(seen): return "a file was evaluated twice: %r" % r.out
    if set(seen) != set(ids): return "%d distinct files evaluated instead of %d" % (len(seen), len(ids))
    loops = {p for p in errs if isinstance(look(d, p)[1], int)}
    if bool(es) != bool(loops): return "errors about %r instead of %r" % (sorted(es), sorted(loops))
    for p in es:
        if look(d, p)[1] != errno.ELOOP: return "an error about %r" % p
    if (r.status != 0) != bool(loops): return "exit status %r with errors %r" % (r.status, es)
    return None

CFG = [("bfs", 1), ("bfs", 2), ("dfs", 1), ("ids", 2), ("eds", 1)]
CFGT = [(s, j) for s in ("bfs", "dfs", "ids", "eds") for j in (1, 2, 4)]

def work(ents):
    global REF
    st = vc.wstate(); st["n"] += 1
    d = os.path.join(os.fsencode(st["dir"]), b"%d" % st["n"]); os.mkdir(d)
    build(d, ents)
    out = dict(evals=0, states=1, events=0, distinct=0, violations=[], samples=[])
    links = [p for p, k in ents if k not in ("d", "f")]
    rootsets = [[b"k"]]
    if len(ents) < NODES or THOROUGH:
        rootsets += [[b"r"], [b"r/"], [b"k/"], [b"k", b"r"], [b"r", b"r"]] + [[p] for p in links] + [[b"k/" + p[2:]] for p in links] + [[p, b"r"] for p in links[:1]]
    REF = {}
    runs = []
    for rs in rootsets:
        for mode in "PHL":
            REF[(tuple(rs), mode)] = ref(d, rs, mode)
            for S, j in (CFGT if THOROUGH else CFG):
                for u in (0, 1):
                    for post in (0, 1):
                        if post and S == "eds": continue
                        flag = ["-" + mode] if mode != "L" or S != "dfs" else []
                        tail = [] if flag else ["-follow"]
                        runs.append((rs, mode, u, [*flag, "-S", S, "-j%d" % j, *rs, *tail, *(["-unique"] if u else []), *(["-depth"] if post else []), *EXPR]))
    rr = st["srv"].batch([a for *_, a in runs], d, opts=["timeout 5000"])
    for (rs, mode, u, args), r in zip(runs, rr):
        out["evals"] += 1; out["events"] += r.out.count(b"\n"); out["distinct"] += bool(links)
        w = judge(r, d, rs, mode, u)
        if w:
            r = st["srv"].run(args, d, opts=["timeout 5000"])
            w = judge(r, d, rs, mode, u)
        if w: out["violations"].append(("%s: bfs %s on %r" % (w, " ".join(os.fsdecode(a) for a in args[:-len(EXPR)]), ents), r.brief())); break
    # -samefile and -newer name a file: followed with -H and -L
    if links and (len(ents) < NODES or THOROUGH):
        more = []
        for p, _ in ents:
            for mode in "PHL":
                ls, fs = look(d, p)
                me = ls if mode == "P" or fs in (errno.ENOENT, errno.ENOTDIR) else fs
                if isinstance(me, int): want = None
                else: want = sorted(v[0] for v in REF[((b"r",), mode)][0] if v[3] == me.st_ino)
                more.append((mode, p, want, ["-" + mode, "-j1", "r", "-samefile", p]))
        for (mode, p, want, args), r in zip(more, st["srv"].batch([m[3] for m in more], d)):
            out["evals"] += 1
            bad = lambda r: want is None and (r.status == 0 or r.out) or want is not None and sorted(r.lines()) != want
            if bad(r):
                r = st["srv"].run(args, d)
                if bad(r): out["violations"].append(("bfs %s on %r should print %r" % (" ".join(os.fsdecode(a) for a in args), ents, want), r.brief())); break
    if st["n"] % 400 == 1: out["samples"].append("%r" % ents)
    shutil.rmtree(d)
    return out

# ---------------------------------------------------------------- chains of links up to the kernel's limit, deep ladders
def chains(job):
    n, j = job
    st = vc.wstate(); st["n"] += 1
    d = os.path.join(os.fsencode(st["dir"]), b"%d" % st["n"]); os.mkdir(d)
    os.mkdir(d + b"/r"); os.mkdir(d + b"/r/t"); open(d + b"/r/t/x", "w").close()
    prev = b"t"
    for i in range(n):
        os.symlink(prev, d + b"/r/l%d" % i); prev = b"l%d" % i
    global REF
    REF = {}
    out = dict(evals=0, states=1, events=0, distinct=0, violations=[])
    for mode in "PHL":
        for u in (0, 1):
            rs = [b"r"]
            REF[(tuple(rs), mode)] = ref(d, rs, mode)
            r = st["srv"].run(["-" + mode, "-j%d" % j, "r", *(["-unique"] if u else []), *EXPR], d)
            out["evals"] += 1; out["distinct"] += 1
            w = judge(r, d, rs, mode, u)
            if w: out["violations"].append(("%s: -%s, chain of %d links, -j%d, unique %d" % (w, mode, n, j, u), r.brief()))
    shutil.rmtree(d)
    return out

# ---------------------------------------------------------------- identity: device and inode number together
ITREES = [[b"r", b"r/a", b"r/a/b", b"r/a/b/c"], [b"r", b"r/a", b"r/a/c", b"r/b", b"r/b/d"]]
def idents(job):
    """All assignments of few (device, inode) pairs to the directories: a loop is an ancestor with the same pair, whatever they share otherwise."""
    k, vals, pairs = job
    st = vc.wstate()
    d = os.path.join(os.fsencode(RAM), b"ident%d" % k)
    paths = ITREES[k]
    out = dict(evals=0, states=1, events=0, distinct=0, violations=[])
    ident = dict(zip(paths, [vals[i] for i in pairs]))
    up = lambda p: [q for q in paths if p.startswith(q + b"/")]
    opts = ["nouring", "timeout 5000"] + ["attr dev=%d,ino=%d %s" % (*ident[p], p.decode()) for p in paths]
    # with -L
    vis, errs = [], []
    for p in paths:
        if any(q in errs for q in up(p)): continue
        (errs if any(ident[q] == ident[p] for q in up(p)) else vis).append(p)
    cases = []
    for S, j in ((("bfs", 1), ("dfs", 2), ("ids", 1), ("eds", 1)) if THOROUGH else (("bfs", 1), ("dfs", 2))):
        a = ["-S", S, "-j%d" % j, "r"]
        cases += [(["-L", *a], vis, errs), (["-L", *a, "-depth"], vis, errs), (a, paths, [])]
        cases += [(["-L", *a, "-unique"], None, []), ([*a, "-unique"], None, [])]
    cases += [(["-j1", "r", "-samefile", p], [q for q in paths if ident[q] == ident[p]], []) for p in paths]
    rr = st["srv"].batch([c[0] for c in cases], d, opts=opts)
    def judge(c, r):
        a, want, errs = c
        es = errpaths(r.err)
        got = r.lines()
        if r.timeout or r.sig is not None or es is None: return "crash, hang or unexpected message"
        if want is None:
            # -unique: the walk descends only into what it evaluates
            if len({ident[p] for p in got}) != len(got): return "a file was evaluated twice"
            have = {ident[p] for p in got}
            for p in paths:
                if all(q in got for q in up(p)) and ident[p] not in have: return "a distinct file was not evaluated: %r" % p
            return "errors" if es or r.status else None
        if sorted(got) != sorted(want): return "printed %r instead of %r" % (sorted(got), sorted(want))
        if es != set(errs): return "errors about %r instead of %r" % (sorted(es), errs)
        if (r.status != 0) != bool(errs): return "exit status %r" % r.status
    for c, r in zip(cases, rr):
        out["evals"] += 1; out["distinct"] += bool(errs); out["events"] += r.out.count(b"\n")
        if judge(c, r):
            r = st["srv"].run(c[0], d, opts=opts); w = judge(c, r)
            if w: out["violations"].append(("%s: bfs %s, directories with (device, inode) %r" % (w, " ".join(os.fsdecode(a) for a in c[0]), ident), r.brief())); break
    return out

def work1(j): return chains(j[1]) if j[0] == "c" else idents(j[1]) if j[0] == "i" else work(j[1])

def main(chk):
    global BFSX, RAM
    b = vc.Build(cflags="-g -O1"); BFSX = b.bfsx()
    RAM = vc.ramscratch("lnk")
    arr = list(arrangements())
    chk.extra["arrangements"] = len(arr)
    jobs = [("c", (n, j)) for n in (1, 2, 3, 8, 39, 40, 41, 45) for j in (1, 2)] + [("a", a) for a in arr]
    for k, t in enumerate(ITREES):
        d = os.path.join(os.fsencode(RAM), b"ident%d" % k); os.mkdir(d)
        for p in t: os.mkdir(os.path.join(d, p))
        for vals in ([(1, 7), (2, 7), (1, 8)], [(1, 7), (1, 7 + 2**32), (1001, 7)], [(5, 9), (9, 5), (5, 5)]):
            jobs += [("i", (k, vals, c)) for c in itertools.product(range(3), repeat=len(t))]
    vc.parallel(jobs, work1, chk, winit, chunk=8)

vc.main("C18", "model_checking", "every arrangement of up to %d directories, files and links, each link to every node, itself or nothing, x -P/-H/-L/-follow x strategies x threads x -depth x -unique x roots that are links; visits, types, target types, tests, loop reports and exit status compared with an independent walk of the same hierarchy; every assignment of few (device, inode) pairs to the directories of two hierarchies, with loops and -unique decided by both" % NODES, main,
        ["the hierarchy does not change during the walk", "a link that the kernel refuses with ELOOP is an error with -L, as in find"])
