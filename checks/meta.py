#!/usr/bin/env python3
"""C26: -xattr, -xattrname, -acl, -capable, -context and -fstype/%F over every kind of file, link and mount, against the attributes each file was given."""
import sys, os, re, struct, errno, itertools, collections, stat as S
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vc

THOROUGH = vc.TIER == "thorough"
AX, AD, CAP, CON = "system.posix_acl_access", "system.posix_acl_default", "security.capability", "security.selinux"
ABSENT = {errno.ENOTSUP, errno.ENODATA, errno.EINVAL}

def acl(*ents): return struct.pack("<I", 2) + b"".join(struct.pack("<HHI", *e) for e in ents)
NOID = 0xffffffff
TRIV = [(1, 6, NOID), (4, 4, NOID), (32, 4, NOID)]
def cap(lo, hi=0, eff=1): return struct.pack("<IIIII", 0x02000000 | eff, lo, 0, hi, 0)

# name -> {attribute: value or errno}; "*": listing fails
SETS = [
    {}, {"user.a": b"1"}, {"user.a": b"", "user.bb": b"x" * 300}, {"trusted.x": b"z"}, {"user.A": b"1"}, {"user.ab": b"1"},
    {AX: acl(*TRIV)},
    {AX: acl((1, 6, NOID), (2, 6, 7), (4, 4, NOID), (16, 6, NOID), (32, 4, NOID))},
    {AX: acl((1, 6, NOID), (4, 4, NOID), (8, 6, 7), (16, 6, NOID), (32, 4, NOID))},
    {AX: acl((1, 6, NOID), (4, 4, NOID), (16, 6, NOID), (32, 4, NOID))},
    {AD: acl(*TRIV)},
    {AX: acl(*TRIV), AD: acl((1, 6, NOID), (2, 6, 7), (4, 4, NOID), (16, 6, NOID), (32, 4, NOID))},
    {CAP: cap(1 << 13)}, {CAP: cap(1 << 0, 0, 0)}, {CAP: cap(0, 1 << 5)}, {CAP: cap(1 << 13), AX: acl(*TRIV), "user.a": b"1"},
    {"*": errno.EIO}, {"*": errno.ENOTSUP}, {"*": errno.EACCES}, {"*": errno.E2BIG, "user.a": errno.E2BIG}, {"*": errno.EINVAL},
    {"user.a": errno.EIO, "*": errno.EPERM}, {"user.a": errno.ENOTSUP, "*": errno.ENOTSUP}, {"user.a": errno.EACCES, "user.ab": b"1"},
    {AX: errno.EIO}, {AX: errno.ENOTSUP}, {AX: errno.EINVAL}, {AX: errno.EACCES, AD: acl(*TRIV)},
    {AD: errno.EIO}, {AD: errno.ENOTSUP}, {AD: errno.ENOTSUP, AX: acl(*TRIV)},
    {CAP: errno.EIO}, {CAP: errno.ENOTSUP}, {CAP: errno.EPERM}, {CAP: errno.EINVAL},
]
NS = len(SETS)
CONS = [b"u:r:t:s0", b"u:r:x:s0", b"u:obj:t:s1", b"U:R:T:S0", b"*", b"a[b]c"]
LINKSET = lambda i: (i + 5) % NS   # what the link itself has
SUBSET = lambda i: (i + 11) % NS

# ---- the model ----
def m_xattr(a, kind):
    if "*" in a: return (True, 0) if a["*"] == errno.E2BIG else (False, a["*"] not in ABSENT)
    return (bool(a), 0)
def m_named(n):
    def f(a, kind):
        v = a.get(n)
        if v is None: return (False, 0)
        if isinstance(v, bytes): return (True, 0)
        return (True, 0) if v == errno.E2BIG else (False, v not in ABSENT)
    return f
def m_acl(a, kind):
    if kind == "l": return (False, 0)
    err = False; yes = False
    for n in (AX, AD):
        if n == AD and kind != "d": continue
        v = a.get(n)
        if isinstance(v, int): err = err or v not in ABSENT
        elif v is not None: yes = yes or n == AD or any(struct.unpack_from("<H", v, o)[0] not in (1, 4, 32) for o in range(4, len(v), 8))
    return (yes, err and not yes)
def m_cap(a, kind):
    if kind == "l": return (False, 0)
    v = a.get(CAP)
    if isinstance(v, int): return (False, v not in ABSENT)
    return (v is not None, 0)
TESTS = [(["-xattr"], m_xattr), (["-acl"], m_acl), (["-capable"], m_cap)] + [(["-xattrname", n], m_named(n)) for n in ("user.a", "user.ab", "user.b", "user.bb", "trusted.x", "user.A", "a", CAP, AX, AD)]

def mktree(d):
    """-> {path: (kind, index of its attributes)}, links: {path: target path or None}"""
    own, target = {}, {}
    os.mkdir(d + "/t"); own["t"] = ("d", 0)
    for i in range(NS):
        open("%s/t/f%d" % (d, i), "w").close(); own["t/f%d" % i] = ("f", i)
        os.mkdir("%s/t/d%d" % (d, i)); own["t/d%d" % i] = ("d", i)
        open("%s/t/d%d/x" % (d, i), "w").close(); own["t/d%d/x" % i] = ("f", SUBSET(i))
        os.symlink("../f%d" % i, "%s/t/d%d/y" % (d, i)); own["t/d%d/y" % i] = ("l", LINKSET(i)); target["t/d%d/y" % i] = "t/f%d" % i
        os.mkfifo("%s/t/p%d" % (d, i)); own["t/p%d" % i] = ("p", i)
        os.symlink("f%d" % i, "%s/t/l%d" % (d, i)); own["t/l%d" % i] = ("l", LINKSET(i)); target["t/l%d" % i] = "t/f%d" % i
        os.symlink("d%d" % i, "%s/t/k%d" % (d, i)); own["t/k%d" % i] = ("l", LINKSET(i)); target["t/k%d" % i] = "t/d%d" % i
        os.symlink("none", "%s/t/b%d" % (d, i)); own["t/b%d" % i] = ("l", i); target["t/b%d" % i] = None
    return own, target

def listing(own, target, roots, mode):
    """[(shown path, object path)] of everything visited"""
    out = []
    def go(shown, obj, root):
        o = obj
        if own[o][0] == "l" and target[o] and (mode == "-L" or root and (mode == "-H" or shown.endswith("/"))): o = target[o]
        out.append((shown, o))
        if own[o][0] == "d":
            for p in own:
                if p.startswith(o + "/") and "/" not in p[len(o) + 1:]: go(shown.rstrip("/") + "/" + p[len(o) + 1:], p, False)
    for r in roots: go(r, r.rstrip("/"), True)
    return out

def xopts(d, own, sets):
    o = []
    for p, (k, i) in own.items():
        ino = os.lstat(os.path.join(d, p)).st_ino
        for n, v in sets(i).items(): o.append("xattr %d %s %s" % (ino, n, v.hex() if isinstance(v, bytes) else "E%d" % v))
    return o

def winit(st): st["srv"] = vc.Server(BFSX)

def judge(r, want, errs):
    if r.timeout or r.sig is not None: return "crash or hang"
    got = collections.Counter(os.fsdecode(x) for x in r.out.split(b"\0")[:-1])
    want = collections.Counter(want)
    if got != want: return "wrongly matched %s, wrongly not matched %s" % (sorted((got - want).elements())[:4], sorted((want - got).elements())[:4])
    said = collections.Counter(os.fsdecode(re.sub(rb"^bfs: error: (.*?): [^:]*$", rb"\1", l)) for l in r.err.split(b"\n") if l)
    said = collections.Counter({k.strip("'"): v for k, v in said.items()})
    if said != collections.Counter(errs): return "diagnostics about %s instead of %s" % (sorted((said - collections.Counter(errs)).elements())[:4], sorted((collections.Counter(errs) - said).elements())[:4])
    if (r.status != 0) != bool(errs): return "exit status %s with %d errors" % (r.status, len(errs))
    return None

def attrs_job(job):
    mode, roots, flags, opt = job
    d, own, target, base = STATE["x"]
    srv = vc.wstate()["srv"]
    out = dict(evals=0, states=0, events=0, distinct=0, violations=[], samples=[])
    ls = listing(own, target, roots, mode)
    runs = []
    for args, m in TESTS:
        for neg in ([], ["!"]):
            want, errs = [], []
            for shown, o in ls:
                k, i = own[o]
                ok, er = m(SETS[i], k)
                if ok != bool(neg): want.append(shown)
                if er: errs.append(shown)
            runs.append((want, errs, [mode, *flags, *roots, *neg, *args, "-print0"]))
    for (want, errs, a), r in zip(runs, srv.batch([x[2] for x in runs], d, opts=base + opt)):
        out["evals"] += 1; out["events"] += len(ls); out["distinct"] += bool(want)
        w = judge(r, want, errs)
        if w: r = srv.run(a, d, opts=base + opt); w = judge(r, want, errs)
        if w and len(out["violations"]) < 3: out["violations"].append(("%s: bfs %s %s" % (w, " ".join(a if len(roots) < 5 else [*a[:6], "..."] + a[len(roots):]), " ".join(opt)), r.brief()))
    # the mark that -ls adds
    a = [mode, *flags, *roots, "-ls"]
    r = srv.run(a, d, opts=base + opt)
    out["evals"] += 1; out["states"] += len(ls)
    marks = collections.Counter(re.findall(rb"(?m)^ *\d+ +\d+ [-dlpbcs][-rwxsStT]{9}([+ ]) ", r.out))
    want = collections.Counter(b"+" if m_acl(SETS[own[o][1]], own[o][0])[0] else b" " for _, o in ls)
    if marks != want: out["violations"].append(("-ls marks %s ACLs instead of %s: bfs %s" % (dict(marks), dict(want), " ".join(a[:8])), r.brief()))
    return out

def context_job(job):
    mode, roots, flags, opt = job
    d, own, target, base = STATE["c"]
    srv = vc.wstate()["srv"]
    out = dict(evals=0, states=0, events=0, distinct=0, violations=[], samples=[])
    ls = listing(own, target, roots, mode)
    con = lambda o: None if own[o][1] == 9 else CONS[own[o][1] % len(CONS)]
    import fnmatch
    GL = [("u:r:t:s0", lambda c: c == b"u:r:t:s0"), ("u:*", lambda c: c.startswith(b"u:")), ("*:s0", lambda c: c.endswith(b":s0")), ("u:?:t:*", lambda c: bool(re.fullmatch(rb"u:.:t:.*", c))), ("[UX]*", lambda c: c[:1] in b"UX"), ("\\*", lambda c: c == b"*"), ("r", lambda c: False), ("*", lambda c: True), ("a\\[b]c", lambda c: c == b"a[b]c")]
    for g, f in GL:
        a = [mode, *flags, *roots, "-context", g, "-print0"]
        want = [s for s, o in ls if con(o) is not None and f(con(o))]; errs = [s for s, o in ls if con(o) is None]
        r = srv.run(a, d, opts=base + opt); w = judge(r, want, errs)
        out["evals"] += 1; out["events"] += len(ls); out["distinct"] += bool(want)
        if w and len(out["violations"]) < 3: out["violations"].append(("%s: bfs %s %s" % (w, " ".join([*a[:6], g]), " ".join(opt)), r.brief()))
    a = [mode, *flags, *roots, "!", "-name", "*9", "!", "-path", "*9/*", "-printf", "%p %Z\\0"]
    ok = lambda s: not s.rstrip("/").endswith("9") and "9/" not in s.rstrip("/") and con(dict(ls)[s]) is not None
    if all(con(o) is not None for s, o in ls if not s.rstrip("/").endswith("9") and "9/" not in s):
        r = srv.run(a, d, opts=base + opt); out["evals"] += 1
        want = [s + " " + os.fsdecode(con(o)) for s, o in ls if not s.rstrip("/").endswith("9") and "9/" not in s.rstrip("/") + ("" if not s.endswith("/") else "")]
        w = judge(r, want, [])
        if w: out["violations"].append(("%%Z: %s: bfs %s" % (w, " ".join(a[:8])), r.brief()))
    return out

def long_job(job):
    """A file whose path is longer than PATH_MAX still has its own attributes."""
    d = STATE["long"]
    srv = vc.wstate()["srv"]
    out = dict(evals=0, states=0, events=0, distinct=0, violations=[], samples=[])
    flags, i = job
    ino = STATE["longino"]
    opts = ["nouring"] + ["xattr %d %s %s" % (ino, n, v.hex() if isinstance(v, bytes) else "E%d" % v) for n, v in SETS[i].items()] + ["xattr 1 user.none 00"]
    for args, m in TESTS:
        ok, er = m(SETS[i], "f")
        r = srv.run([*flags, "t", "-name", "leaf", *args, "-printf", "%f\\0"], d, opts=opts)
        out["evals"] += 1; out["states"] += 1; out["distinct"] += ok
        w = "crash or hang" if r.timeout or r.sig is not None else "matched %r" % r.out if (r.out == b"leaf\0") != ok else "exit status %s" % r.status if (r.status != 0) != bool(er) else None
        if w: out["violations"].append(("%s: %s on a file with %s, its path longer than PATH_MAX" % (" ".join(args), w, sorted(SETS[i])), r.brief()[-900:])); break
    return out

# ---- mounts ----
PTS = ["m/a", "m/a/x y", "m/b", "m/b/h"]
MTREE = ["m", "m/a", "m/a/g", "m/a/x y", "m/a/x y/f", "m/b", "m/b/h", "m/b/i", "m/l", "m/c"]
def mbuild(d):
    for p in ("m", "m/a", "m/a/x y", "m/b", "m/c"): os.mkdir(os.path.join(d, p))
    for p in ("m/a/g", "m/a/x y/f", "m/b/h", "m/b/i"): open(os.path.join(d, p), "w").close()
    os.symlink("a/x y", os.path.join(d, "m/l"))

def mount_job(job):
    assign = job   # per point: 0 nothing, 1 another filesystem, 2 the base filesystem once more (bind)
    srv = vc.wstate()["srv"]; d = STATE["m"]
    out = dict(evals=0, states=0, events=0, distinct=0, violations=[], samples=[])
    ty = {"m": "basefs"}; key = {"m": (0, 1)}; rules = []
    for n, (p, k) in enumerate(zip(PTS, assign)):
        if k: key[p] = (n + 1, n + 2) if k == 1 else (0, n + 2); ty[p] = "fs%d" % n if k == 1 else "basefs"
    for p, (dv, mn) in key.items(): rules.append(vc.rule("stat", p, 1, 0, "V", 1000000000 + dv * 1000000 + mn))
    def at(p):
        while p not in key: p = os.path.dirname(p)
        return p
    esc = lambda p: os.path.join(d, p).replace(" ", "\\040")
    exact = [("m", "basefs")] + [(p, ty[p]) for p in PTS if p in ty]
    stale = [(p, "stalefs") for p in PTS if p not in ty]
    tables = [("exact", exact, None), ("reversed", exact[::-1], None), ("stale entries first", stale + exact, None), ("stale entries last", exact + stale, None),
              ("other filesystems below what is mounted last", [e for p, t in exact for e in ((p, "hiddenfs"), (p, t))], None), ("gone paths", exact + [("gone/x", "gonefs"), ("m/nothing", "gonefs")], None)]
    if len(exact) > 1: tables.append(("without the last mount", exact[:-1], exact[-1][0]))
    tab = os.path.join(STATE["tabs"], "t%d" % os.getpid())
    for tn, table, missing in tables:
        with open(tab, "w") as f:
            f.write("# comment\nrootfs / rootfs rw 0 0\n")
            for p, t in table: f.write("none %s %s rw,relatime 0 0\n" % (esc(p), t))
        for statx in (True, False):
            def typ(p):
                q = at(p)
                if missing == q:
                    if statx or key[q][0] != 0: return "unknown"
                return ty[q]
            opts = ["nouring", "mtab " + tab] + rules + ([] if statx else ["nostatx"])
            for fol in ("-P", "-L"):
                objs = {p: p for p in MTREE}
                if fol == "-L": objs["m/l"] = "m/a/x y"; objs["m/l/f"] = "m/a/x y/f"
                want = collections.Counter("%s %s" % (p, typ(o)) for p, o in objs.items())
                cmds = [[fol, "-j%d" % j, "-S", s, "m", "-printf", "%p %F\\0"] for j, s in ((1, "bfs"), (2, "dfs"))]
                wants = [want] * len(cmds)
                for t in ("basefs", "fs0", "fs1", "stalefs", "hiddenfs", "unknown", "base"):
                    cmds.append([fol, "-j1", "m", "-fstype", t, "-print0"])
                    wants.append(collections.Counter(p for p, o in objs.items() if typ(o) == t))
                for a, w, r in zip(cmds, wants, srv.batch(cmds, d, opts=opts)):
                    out["evals"] += 1; out["events"] += len(objs); out["distinct"] += bool(w)
                    got = collections.Counter(os.fsdecode(x) for x in r.out.split(b"\0")[:-1])
                    bad = "crash or hang" if r.timeout or r.sig is not None else "unexpected failure" if r.status or r.err else None if got == w else "%s instead of %s" % (sorted((got - w).elements())[:4], sorted((w - got).elements())[:4])
                    if bad and len(out["violations"]) < 2: out["violations"].append(("%s: bfs %s with mounts %s and a mount table that is %s%s" % (bad, " ".join(a), ["%s:%s" % (p, ("", "other", "bind")[k]) for p, k in zip(PTS, assign) if k], tn, "" if statx else ", without statx()"), "%s\n%s" % (r.brief(), open(tab).read())))
        out["states"] += 1
    return out

KINDS = {"f": S.S_IFREG, "p": S.S_IFIFO, "s": S.S_IFSOCK, "c": S.S_IFCHR, "b": S.S_IFBLK}
def over_job(job):
    """A file that something of another type is mounted on has the type of what is mounted."""
    flags, name, new = job
    srv = vc.wstate()["srv"]; d = STATE["o"]
    out = dict(evals=0, states=1, events=0, distinct=0, violations=[], samples=[])
    tab = os.path.join(STATE["tabs"], "o%d" % os.getpid())
    with open(tab, "w") as f: f.write("rootfs / rootfs rw 0 0\nnone %s devfs rw 0 0\n" % os.path.join(d, "o", name))
    real = {"o": "d", "o/f": "f", "o/p": "p", "o/q": "d", "o/q/f": "f", "o/q/p": "p"}
    real["o/" + name] = new
    opts = ["nouring", "mtab " + tab, "attr mode=%d o/%s" % (KINDS[new] | 0o644, name)]
    cmds = [([*flags, "o", "-type", k, "-print0"], collections.Counter(p for p in real if real[p] == k)) for k in "fpscbd"]
    cmds += [([*flags, "o", "-printf", "%p %y\\0"], collections.Counter("%s %s" % x for x in real.items())), ([*flags, "o", "-xtype", new, "-print0"], collections.Counter(p for p in real if real[p] == new))]
    for (a, w), r in zip(cmds, srv.batch([c[0] for c in cmds], d, opts=opts)):
        out["evals"] += 1; out["events"] += 6; out["distinct"] += bool(w)
        got = collections.Counter(os.fsdecode(x) for x in r.out.split(b"\0")[:-1])
        if r.timeout or r.sig is not None or r.status or r.err or got != w:
            out["violations"].append(("printed %s instead of %s: bfs %s with a file of type %s mounted on o/%s" % (sorted(got), sorted(w), " ".join(a), new, name), r.brief())); break
    return out

STATE = {}
def work(job): return {"x": attrs_job, "c": context_job, "long": long_job, "m": mount_job, "o": over_job}[job[0]](job[1])

def main(chk):
    global BFSX
    b = vc.Build(cflags="-g -O2"); BFSX = b.bfsx()
    ram = os.path.realpath(vc.ramscratch("meta"))
    for n in ("x", "c", "m", "o", "tabs", "long"): os.mkdir(os.path.join(ram, n))
    d = os.path.join(ram, "x"); own, target = mktree(d)
    STATE["x"] = (d, own, target, ["nouring"] + xopts(d, own, lambda i: SETS[i]))
    d2 = os.path.join(ram, "c"); own2, target2 = mktree(d2)
    STATE["c"] = (d2, own2, target2, ["nouring"] + xopts(d2, own2, lambda i: {CON: errno.EIO if i == 9 else CONS[i % len(CONS)] + b"\0"}))
    STATE["m"] = os.path.join(ram, "m"); mbuild(STATE["m"])
    STATE["tabs"] = os.path.join(ram, "tabs")
    STATE["o"] = os.path.join(ram, "o")
    for p in ("o", "o/q"): os.mkdir(os.path.join(ram, "o", p))
    for p in ("o/f", "o/q/f"): open(os.path.join(ram, "o", p), "w").close()
    for p in ("o/p", "o/q/p"): os.mkfifo(os.path.join(ram, "o", p))
    STATE["long"] = os.path.join(ram, "long")
    cwd = os.getcwd(); os.chdir(STATE["long"]); os.mkdir("t"); os.chdir("t")
    for i in range(24): os.mkdir("n" * 200); os.chdir("n" * 200)
    open("leaf", "w").close(); STATE["longino"] = os.stat("leaf").st_ino
    os.chdir(cwd)
    allroots = sorted(p for p in own if p.count("/") == 1)
    rootsets = [["t"], allroots, [p + "/" for p in own if own[p][0] == "d" or p[2] == "k"], [p for p in own if p.count("/") == 2], ["t/k3", "t", "t/l7", "t/b3"]]
    flagsets = [["-j1", "-S", "bfs"], ["-j3", "-S", "dfs"], ["-j1", "-S", "ids", "-O0"], ["-j2", "-S", "eds", "-O4", "-depth"]]
    jobs = []
    for mode in ("-P", "-H", "-L"):
        for ri, rs in enumerate(rootsets):
            for fi, fl in enumerate(flagsets):
                for oi, opt in enumerate(([], ["noproc"])):
                    if "-O4" in fl: fl = [x for x in fl if x != "-O4"]
                    jobs.append(("x", (mode, rs, fl, opt)))
                    if THOROUGH or fi == (ri + oi) % 4: jobs.append(("c", (mode, rs, fl, opt)))
    # with hardly any descriptors, files are reached from directories further up
    for mode in ("-P", "-L"):
        for n in (6, 7, 8, 10):
            for fl in (["-s", "-j1"], ["-s", "-j1", "-S", "dfs"], ["-j1", "-depth"]):
                jobs.append(("x", (mode, ["t"], fl, ["nofile %d" % n])))
                jobs.append(("c", (mode, ["t"], fl, ["nofile %d" % n])))
    for fl in (["-j1"], ["-j2", "-S", "dfs"]):
        for i in range(NS): jobs.append(("long", (fl, i)))
    for a in itertools.product((0, 1, 2), repeat=len(PTS)): jobs.append(("m", a))
    for fl in flagsets + [["-j1", "-L"], ["-s"]]:
        for name in ("f", "p"):
            for new in "fpscb":
                if new != name: jobs.append(("o", ([x for x in fl if x != "-O4"], name, new)))
    vc.parallel(jobs, work, chk, winit, chunk=4)

vc.main("C26", "model_checking", "every extended-attribute, ACL, capability and context test on every kind of file given every set of attributes of a list (failing lookups included), reached in every way (-P/-H/-L, as a root or below one, with a slash, through links, beyond PATH_MAX, with and without /proc); -fstype and %F for every assignment of mounts (other filesystem, bind) to the points of a hierarchy and every mount table of a list (stale, hidden, reordered or missing entries), with and without statx(); states: files and mount tables; transitions: test evaluations compared", main,
        ["Extended attributes, mounts and the mount table are supplied by substituted library calls"])
