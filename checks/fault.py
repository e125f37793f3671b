#!/usr/bin/env python3
"""C12: every call of a walk failing, at every occurrence, with every relevant errno."""
import sys, os, itertools, collections, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vc, model

THOROUGH = vc.TIER == "thorough"
F = ("f", 0)
def D(**k): return ("d", {a.encode(): b for a, b in k.items()})
TREES = {
    "t1": [(b"r", D(a=D(f=F, b=D(g=F, e=D())), c=F, d=D(h=F), l=("l", "a"), x=("l", "nowhere")))],
    "t2": [(b"r", D(a=D(b=D(c=D(f=F), g=F), k=F))), (b"q", D(z=F, y=D(w=F)))],
}
def E(*n): return [vc.E(x) for x in n]
ERR = {"open": E("EACCES", "EIO", "ENOENT", "ENOTDIR", "ELOOP", "ENFILE", "ENOMEM", "ENXIO", "ESTALE"),
       "getdents": E("EIO", "ENOENT", "EACCES", "ENOTDIR", "ESTALE", "EINVAL"),
       "stat": E("EACCES", "EIO", "ENOENT", "ENOTDIR", "ELOOP", "ESTALE", "EOVERFLOW"),
       "readlink": E("EACCES", "EIO", "ENOENT", "EINVAL")}
EXPRS = [
    ["-print"], ["-depth", "-print"], ["-size", "-100000000", "-print"], ["-L", "-print"], ["-lname", "*", "-print", "-o", "-print"],
    ["-xdev", "-print"], ["-empty", "-print", "-o", "-print"], ["-printf", "%p\\n%.0s%.0l"], ["-xtype", "f", "-print", "-o", "-print"],
    ["-unique", "-print"], ["-L", "-mount", "-depth", "-print"], ["-mindepth", "1", "-maxdepth", "2", "-newermt", "1990-01-01", "-print"],
    ["-links", "+0", "-inum", "+0", "-print", "-o", "-print"], ["-type", "d", "-print", "-o", "-type", "l", "-print", "-o", "-type", "f", "-print"],
]
def cfgs():
    for t in TREES:
        for i, e in enumerate(EXPRS):
            for S in ("bfs", "dfs", "ids", "eds"):
                for j in (1, 3):
                    for s in ((), ("-s",)):
                        k = i + len(S) + ord(S[0]) + j + len(s)
                        if THOROUGH or k % 4 == 0 or i < 1 and k % 2 == 0: yield t, e, S, j, s

SITE = re.compile(rb"^(open|getdents|stat) (\S+)(?: F)? = ", re.M)
def under(p, q): return q == p or q.startswith(p + b"/")

def winit(st): st["srv"] = vc.Server(BFSX)
def lines(out):
    return [l for l in out.split(b"\n") if l]

def work(job):
    t, e, S, j, s = job
    srv = vc.wstate()["srv"]
    out = dict(evals=0, states=0, events=0, distinct=0, violations=[], samples=[], extra={})
    roots = [r for r, _ in TREES[t]]
    cwd = os.path.join(CWD, t)
    def args(*more): return ["-S", S, "-j%d" % j, *s, *roots, *more, *e]
    base = srv.run(args(), cwd, opts=["nouring", "trace"])
    out["evals"] += 1
    if base.timeout or base.sig is not None:
        out["violations"].append(("walk without faults fails: %s" % " ".join(map(str, e)), base.brief())); return out
    bl = collections.Counter(lines(base.out))
    # a following walk reports nothing by itself: the trees have no loops
    if base.err or base.status != 0 or max(bl.values(), default=1) > 1:
        out["violations"].append(("walk without faults reports an error: %s" % " ".join(map(str, e)), base.brief())); return out
    sites = collections.Counter()
    for m in SITE.finditer(base.trace): sites[m.group(1).decode(), m.group(2)] += 1
    if "-lname" in e or "%p\\n%.0s%.0l" in e:
        for p in bl:
            if p.endswith(b"/l") or p.endswith(b"/x"): sites["readlink", p] += 1
    alln = set(bl) | set(p for r, n in TREES[t] for p, _, _ in model.walk(r, n))
    for (cls, path), n in sorted(sites.items()):
        if not any(under(r, path) for r in roots): continue
        root = path in roots
        for err in ERR[cls]:
            plans = [(k, 0) for k in range(1, min(n, 4) + 1)] + ([(k, k) for k in range(1, min(n, 4) + 1)] if err in E("EACCES", "ENOENT") or THOROUGH else [])
            for frm, to in plans:
                # a link whose target is missing for one call is a broken link for that call, not an error
                if to and cls == "stat" and err in E("ENOENT", "ENOTDIR") and path[-2:] in (b"/l", b"/x"): continue
                variants = [()]
                if frm == 1 and to == 0: variants += [("-noerror",), ("-ignore_readdir_race",)]
                for v in variants:
                    opts = ["nouring", vc.rule(cls, path, frm, to, "E", err)]
                    r = srv.run(args(*v), cwd, opts=opts)
                    out["evals"] += 1; out["states"] += 1; out["events"] += len(r.out)
                    got = collections.Counter(lines(r.out))
                    bad = None
                    race = v == ("-ignore_readdir_race",) and err in E("ENOENT", "ENOTDIR") and not root
                    if r.timeout: bad = "hang"
                    elif r.sig is not None or r.status not in (0, 1): bad = "status %s signal %s" % (r.status, r.sig)
                    elif any(c > 1 for c in got.values()): bad = "a file is visited twice"
                    elif any(p not in bl for p in got if not under(path, p)): bad = "something not there is visited"
                    elif any(p not in got for p in bl if not under(path, p)): bad = "files outside the failing subtree are lost"
                    elif any(p not in alln and p != path for p in got): bad = "something not there is visited"
                    elif v == ("-noerror",):
                        if r.status != 0: bad = "-noerror does not keep the exit status 0"
                    elif race:
                        if r.status != 0 or r.err: bad = "-ignore_readdir_race does not hide a vanished file"
                    elif r.hits[0] == 0:
                        if r.status != 0 or r.err or got != bl: bad = "differs without a failure"
                    elif to != 0 and r.status == 0 and not r.err and got == bl: pass      # absorbed by a retry
                    else:
                        out["distinct"] += 1
                        if r.status != 1: bad = "exit status 0 after a failure"
                        elif path not in r.err: bad = "no diagnostic names the path"
                    if bad and "-xtype" in e and err == vc.E("ELOOP") and path[-2:] in (b"/l", b"/x") and r.status == 0 and got == bl: bad = None   # -xtype sees a looping link as a link
                    if bad and "-mount" in e and cls == "stat" and r.status == 0 and not r.err and got == bl: bad = None   # only asked whether the file is a mount point; it is shown either way
                    if r.hits[0]: out["extra"]["faults_hit"] = out["extra"].get("faults_hit", 0) + 1
                    if bad:
                        out["violations"].append(("%s: %s of %s fails with %s from occurrence %d%s; bfs %s" % (bad, cls, path.decode(), os.strerror(err), frm, " on" if not to else " only", " ".join(a if isinstance(a, str) else a.decode() for a in args(*v))),
                                                  "options %r\n%s\nbaseline %s" % (opts, r.brief(), base.brief())))
                        if len(out["violations"]) > 4: return out
    out["samples"].append("%s: %d call sites" % (" ".join(a if isinstance(a, str) else a.decode() for a in args()), len(sites)))
    return out

# ---- real failures, seen through whichever I/O path bfs uses (threads, io_uring): unreadable and unsearchable directories
def work_perm(job):
    bad_dir, mode, e, S, j, s, uring = job
    srv = vc.wstate()["srv"]
    out = dict(evals=0, states=0, events=0, distinct=0, violations=[], samples=[], extra={})
    d = os.path.join(CWD, "perm", "%s.%o" % (bad_dir.decode().replace("/", "_"), mode))
    tree = TREES["t1"][0][1]
    args = ["-S", S, "-j%d" % j, *s, b"r", *e]
    r = srv.run(args, d, opts=["uid 65534"] + ([] if uring else ["nouring"]))
    out["evals"] = 1; out["states"] = 1; out["events"] = len(r.out)
    follow = "-L" in e
    exp = set()
    for p, n, dep in model.walk(b"r", tree): exp.add(p)
    if follow:
        for p, n, dep in model.walk(b"r/l", tree[1][b"a"]): exp.add(p)
    real = b"r/a" + bad_dir[3:] if under(b"r/l", bad_dir) else bad_dir
    lost_roots = [real]
    if follow and under(b"r/a", real): lost_roots.append(b"r/l" + real[3:])
    got = collections.Counter(lines(r.out)); bad = None
    needs = {p for p in exp if not any(under(q, p) and p != q for q in lost_roots)}
    if r.timeout or r.sig is not None: bad = "crash or hang"
    elif any(c > 1 for c in got.values()): bad = "a file is visited twice"
    elif needs - set(got): bad = "files outside the failing subtree are lost"
    elif set(got) - exp: bad = "something not there is visited"
    else:
        # mode 0: the directory cannot be listed.  mode r--: it can be listed, but its entries cannot be examined.
        lost = {p for p in exp if p not in got}
        below = [p for p in exp if any(under(q, p) and p != q for q in lost_roots)]
        must = mode == 0 or any(tn[0] == "d" for p, tn, _ in model.walk(real, _node(tree, real)) if p != real)
        if must or lost:
            out["distinct"] = 1
            if r.status != 1: bad = "exit status 0 after a failure"
            elif not any(q in r.err for q in lost_roots): bad = "no diagnostic names the path"
    if bad: out["violations"].append(("%s: %s has mode %o; bfs %s" % (bad, bad_dir.decode(), mode, " ".join(a if isinstance(a, str) else a.decode() for a in args)), "io_uring %s\n%s" % (uring, r.brief())))
    return out
def _node(tree, p):
    n = tree
    for c in p.split(b"/")[1:]: n = n[1][c]
    return n

def work_any(j): return work(j[1:]) if j[0] == "f" else work_perm(j[1:])

def main(chk):
    global BFSX, CWD
    b = vc.Build(cflags="-g -O1 -fsanitize=undefined -fno-sanitize-recover=undefined")
    BFSX = b.bfsx()
    CWD = vc.ramscratch("fault")
    for t, roots in TREES.items():
        os.mkdir(os.path.join(CWD, t))
        for r, n in roots: model.make(os.fsencode(os.path.join(CWD, t)), r, n)
    os.mkdir(os.path.join(CWD, "perm"))
    jobs = [("f", *c) for c in cfgs()]
    tree = TREES["t1"][0][1]
    for p, n, d in model.walk(b"r", tree):
        if n[0] != "d" or p == b"r": continue
        for mode in (0, 0o444):
            base = os.path.join(CWD, "perm", "%s.%o" % (p.decode().replace("/", "_"), mode))
            os.mkdir(base); model.make(os.fsencode(base), b"r", tree)
            os.chmod(os.path.join(base, p.decode()), mode)
            for e in (["-print"], ["-depth", "-print"], ["-L", "-print"], ["-size", "-100000", "-print", "-o", "-print"]):
                for S in ("bfs", "dfs", "ids", "eds"):
                    for j in (1, 2, 4):
                        for s in ((), ("-s",)):
                            for u in (True, False):
                                if u or j > 1: jobs.append(("p", p, mode, e, S, j, s, u))
    vc.parallel(jobs, work_any, chk, winit)

vc.main("C12", "model_checking", "for each of %d expressions on two hierarchies, for every search strategy, with and without threads and sorting: every call that opens, reads, examines or resolves a path of the hierarchy fails, from each of its occurrences on (and at single occurrences), with each relevant errno; also with -noerror and -ignore_readdir_race; states: faulty executions; non-trivial: a failure that had to be reported" % len(EXPRS), main,
        ["failures are injected at the libc boundary; io_uring operations fail for real (unreadable and unsearchable directories, as an unprivileged user)"])
