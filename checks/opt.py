#!/usr/bin/env python3
"""C05: every expression of up to 3 (4) leaves over families of related tests and actions, on files realising the interesting
attribute values: -O1, -O2, -O3 must behave as -O0."""
import sys, os, itertools, socket
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vc, model
THOROUGH = vc.TIER == "thorough"

def build(base):
    """One directory per family."""
    def d(*p):
        q = os.path.join(base, *p); os.makedirs(q, exist_ok=True); return q
    def f(p, size=0, mode=0o644, uid=0, gid=0, mtime=None):
        p = os.path.join(base, p)
        with open(p, "wb") as h: h.truncate(size)
        os.chmod(p, mode); os.chown(p, uid, gid)
        if mtime is not None: os.utime(p, ns=(mtime, mtime))
        return p
    d("own")
    for u in (0, 1, 2, 12345, 4294967294):
        for g in (0, 1, 12345): f("own/%d-%d" % (u, g), uid=u, gid=g)
    d("type", "full"); d("type", "empty")
    f("type/e"); f("type/n", 3); f("type/full/x")
    os.symlink("e", os.path.join(base, "type/le")); os.symlink("n", os.path.join(base, "type/ln")); os.symlink("full", os.path.join(base, "type/ld"))
    os.symlink("gone", os.path.join(base, "type/lb")); os.mkfifo(os.path.join(base, "type/p"))
    d("size")
    for s in (0, 1, 2, 3, 511, 512, 513, 1023, 1024, 1025, 2048, 2049): f("size/%d" % s, s)
    d("depth", "a", "b", "c"); f("depth/a/f"); f("depth/a/b/f"); f("depth/a/b/c/f"); f("depth/g")
    d("links"); f("links/one"); f("links/two"); f("links/three"); f("links/solo")
    os.link(os.path.join(base, "links/two"), os.path.join(base, "links/two2"))
    for i in "23": os.link(os.path.join(base, "links/three"), os.path.join(base, "links/three" + i))
    d("links", "dir", "sub")
    d("acc")
    for m in (0, 0o4, 0o2, 0o1, 0o6, 0o5, 0o7, 0o444, 0o644, 0o755, 0o4755, 0o2755, 0o1777): f("acc/%o" % m, 1, m)
    d("name")
    for n in ("b", "B", "bb", ".b", ".h", "a", "a.c"): f("name/" + n)
    d("name", "bdir"); f("name/bdir/b"); d("name", ".hd"); f("name/.hd/b")
    d("time")
    N = 1_600_000_000
    for i, t in enumerate((N, N - 59, N - 60, N - 61, N - 86399, N - 86400, N - 86401, N - 172800, N + 5, 0)): f("time/t%d" % i, mtime=t * 10**9)
    f("time/ref", mtime=(N - 60) * 10**9)
    for k in ("own", "type", "size", "depth", "links", "acc", "name", "time"): os.utime(os.path.join(base, k), ns=(N * 10**9, N * 10**9))

def families(base):
    ino = lambda p: os.lstat(os.path.join(base, p)).st_ino
    t2 = ino("links/two")
    F = {}
    def fam(name, roots, atoms, flags=(), opts=(), tail=True):
        F[name] = (roots, [a.split(" ") for a in atoms], list(flags), list(opts))
    fam("uid", ["own"], ["-uid 0", "-uid 1", "-uid +0", "-uid -2", "-uid 12345", "-uid +1", "-nouser", "-user daemon", "-gid 0", "-type f"])
    fam("gid", ["own"], ["-gid 0", "-gid 1", "-gid +0", "-gid -2", "-gid 12345", "-gid +1", "-nogroup", "-group daemon", "-uid 1"])
    ty = ["-type f", "-type d", "-type l", "-type f,d", "-xtype f", "-xtype l", "-xtype d", "-lname *", "-empty", "-size 0c", "-type p", "-print"]
    fam("type-P", ["type"], ty)
    fam("type-L", ["type"], ty[:-1], ["-L"])
    fam("size", ["size"], ["-size 0c", "-size 1c", "-size +1c", "-size -2c", "-size 0", "-size 1", "-size +1", "-size -1", "-size 1k", "-size -2k", "-size +0k", "-size 1w", "-empty", "-type f"])
    fam("depth", ["depth"], ["-depth 0", "-depth 1", "-depth +0", "-depth -1", "-depth +1", "-depth -2", "-depth 2", "-prune", "-print", "-type d", "-false"])
    fam("mdepth", ["depth"], ["-depth 1", "-depth +1", "-mindepth 1", "-maxdepth 2", "-mindepth 2", "-maxdepth 1", "-prune", "-quit", "-print"])
    fam("links", ["links"], ["-links 1", "-links 2", "-links +1", "-links -2", "-links +2", "-links -3", "-type d", "-samefile links/two", "-inum %d" % t2])
    fam("inum", ["links"], ["-inum %d" % t2, "-inum +%d" % t2, "-inum -%d" % t2, "-inum %d" % ino("links/solo"), "-samefile links/two", "-samefile links/two2", "-samefile links/solo", "-links 2", "-false"])
    fam("acc", ["acc"], ["-readable", "-writable", "-executable", "-perm 644", "-perm -4", "-perm /2", "-perm -u+s", "-perm -1", "-type d"], opts=["uid 65534"])
    fam("acc-dir", ["acc"], ["-readable", "-writable", "-executable", "-perm -1000", "-perm /6000", "-type f"])
    fam("name", ["name"], ["-name b", "-name b*", "-iname b", "-iname B*", "-hidden", "-path */b", "-path name/b", "-regex .*/b", "-type d", "-name name"])
    fam("time", ["time"], ["-newer time/ref", "! -newer time/ref", "-mmin 1", "-mmin +1", "-mmin -1", "-mtime 0", "-mtime +0", "-mtime -1", "-newermt 2020-09-13", "-anewer time/ref"], opts=["now 1600000000 0"])
    fam("acts", ["depth", "name"], ["-print", "-prune", "-quit", "-exit 3", "-printf %f;", "-limit 3", "-name b*", "-type d", "-false", "-true"])
    fam("excl", ["depth", "name"], ["-print", "-prune", "-exclude -name b*", "-exclude -depth 2", "-exclude -type f", "-nohidden", "-name b*", "-depth +1", "-type d"])
    # different devices using the same inode number
    byino = {}
    for p in ("/proc", "/sys", "/dev", "/dev/shm", "/dev/pts", "/", base):
        try: s = os.stat(p)
        except OSError: continue
        byino.setdefault(s.st_ino, {}).setdefault(s.st_dev, p)
    for i, devs in byino.items():
        if len(devs) > 1:
            ps = list(devs.values())[:3]
            fam("dev", ps, ["-samefile " + ps[0], "-samefile " + ps[1], "-inum %d" % i, "-inum +%d" % i, "-inum -%d" % i, "-maxdepth 0", "-type d"], ["-maxdepth", "0"])
            break
    return F

OPS = {"a": ["-a"], "o": ["-o"], ",": [","]}

def exprs(atoms, leaves, idx0):
    """All expressions with exactly `leaves` leaves whose first leaf is atoms[idx0]."""
    neg = lambda b, x: ["!", *x] if b else list(x)
    if leaves == 1:
        for b in (0, 1): yield neg(b, atoms[idx0])
    elif leaves == 2:
        for y in atoms:
            for o in OPS.values():
                for bx in (0, 1):
                    for by in (0, 1):
                        e = [*neg(bx, atoms[idx0]), *o, *neg(by, y)]
                        yield e
                        yield ["!", "(", *e, ")"]
    elif leaves == 3:
        for y in atoms:
            for z in atoms:
                for o1 in OPS.values():
                    for o2 in OPS.values():
                        for bx, by, bz in itertools.product((0, 1), repeat=3):
                            if not THOROUGH and bx + by + bz > 1: continue
                            x_, y_, z_ = neg(bx, atoms[idx0]), neg(by, y), neg(bz, z)
                            yield ["(", *x_, *o1, *y_, ")", *o2, *z_]
                            if o1 is not o2: yield [*x_, *o1, "(", *y_, *o2, *z_, ")"]
    else:
        for rest in itertools.product(atoms, repeat=3):
            for o1, o2, o3 in itertools.product(OPS.values(), repeat=3):
                for bs in itertools.product((0, 1), repeat=2):
                    l = [neg(bs[0], atoms[idx0]), list(rest[0]), neg(bs[1], rest[1]), list(rest[2])]
                    yield ["(", *l[0], *o1, *l[1], ")", *o2, "(", *l[2], *o3, *l[3], ")"]

def winit(st): st["srv"] = vc.Server(BFSX)

def work(job):
    name, leaves, idx0, wrapped = job
    roots, atoms, flags, opts = FAM[name]
    srv = vc.wstate()["srv"]
    out = dict(evals=0, states=0, events=0, distinct=0, violations=[], samples=[], extra={})
    pre = ["-j1", "-s", "-S", "dfs", *flags]
    opts = ["nouring", *opts]
    outs = set()
    def args(O, e):
        if wrapped: return ["-O%d" % O, *pre, *roots, "(", *e, ")", "-printf", "T%p\n", "-o", "-printf", "F%p\n"]
        return ["-O%d" % O, *pre, *roots, *e]
    key = lambda r: (r.status, r.sig, r.timeout, r.out)
    def flush(es):
        argvs = [args(O, e) for e in es for O in (0, 1, 2, 3)]
        rs = srv.batch(argvs, CWD, opts=opts)
        out["evals"] += len(rs); out["states"] += len(es)
        for i, e in enumerate(es):
            r = rs[4 * i:4 * i + 4]
            outs.add(hash(r[0].out))
            out["events"] += r[0].out.count(b"\n") * 3
            if r[0].out: out["distinct"] += 1
            if any(key(x) != key(r[0]) for x in r[1:]):
                r = [srv.run(args(O, e), CWD, opts=opts) for O in (0, 1, 2, 3)]
                bad = [O for O in (1, 2, 3) if key(r[O]) != key(r[0])]
                if bad:
                    out["violations"].append(("-O%d differs from -O0: %s" % (bad[0], " ".join(e)), "argv: %r opts %r\n-O0: %s\n-O%d: %s" % (r[0].argv, opts, r[0].brief(), bad[0], r[bad[0]].brief())))
    buf = []
    for e in exprs(atoms, leaves, idx0):
        buf.append(e)
        if len(buf) >= 150:
            flush(buf); buf = []
            if len(out["violations"]) > 3: break
    if buf: flush(buf)
    out["samples"].append("%s: %s" % (name, " ".join(args(3, e))))
    out["extra"]["distinct_outputs"] = len(outs)
    return out

def main(chk):
    global BFSX, CWD, FAM
    b = vc.Build(cflags="-g -O2")
    BFSX = b.bfsx()
    RAM = vc.ramscratch("opt")
    CWD = os.fsencode(RAM)
    build(RAM)
    FAM = families(RAM)
    jobs = []
    for name, (roots, atoms, flags, opts) in FAM.items():
        for L in (3, 2, 1) if not THOROUGH else (4, 3, 2, 1):
            if L == 4 and len(atoms) > 12: continue
            for i in range(len(atoms)):
                if name not in ("acts", "excl"): jobs.append((name, L, i, True))
                if L < 3 or THOROUGH or name in ("acts", "excl", "mdepth", "depth", "type-P"): jobs.append((name, L, i, False))
    jobs.sort(key=lambda j: -j[1])
    vc.parallel(jobs, work, chk, winit)
    chk.extra["families"] = len(FAM)

vc.main("C05", "model_checking", "for each family of related tests/actions: every expression with <= %d leaves (every combination of and/or/comma, both associations, every negation of the leaves; with three leaves at most one negated in the quick tier), each evaluated on files realising all boundary values of the attribute, at -O0..-O3; states: expressions; transitions: per-file evaluations compared; non-trivial: produces output" % (4 if THOROUGH else 3), main,
        ["-O0 performs no rewriting and is the reference (its meaning is checked by C06/C07)", "files whose attributes can be read (a failing stat is C12's subject)"])
