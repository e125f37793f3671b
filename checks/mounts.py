#!/usr/bin/env python3
"""C19: every placement of mount points on small hierarchies, walked with -xdev, -mount and neither."""
import sys, os, itertools, collections, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vc, model
from model import join

THOROUGH = vc.TIER == "thorough"
NODES = 6 if THOROUGH else 5
NAMES = [b"b", b"a", b"b.c", b"B", b"c"]

def winit(st):
    st["srv"] = vc.Server(BFSX); st["n"] = 0
    st["dir"] = os.path.join(RAM, "w%d" % os.getpid()); os.mkdir(st["dir"])

def nodes(shape, path=b"r"):
    yield path, "f" if shape == "f" else "d"
    if shape != "f":
        for i, c in enumerate(shape): yield from nodes(c, path + b"/" + NAMES[i])

def trees():
    """-> [(path, 'd'|'f'|target)]"""
    for n in range(1, NODES + 1):
        for shape in model.shapes(n):
            ns = list(nodes(shape))
            yield ns
            if n > NODES - 1: continue
            for p in (p for p, k in ns if k == "f"):
                for q, k in ns:
                    if q == p: continue
                    yield [(x, os.path.relpath(q, os.path.dirname(p)) if x == p else y) for x, y in ns]

def build(d, ents):
    for p, k in ents:
        q = os.path.join(d, p)
        if k == "d": os.mkdir(q)
        elif k == "f": os.close(os.open(q, os.O_WRONLY | os.O_CREAT, 0o644))
        else: os.symlink(k, q)
    os.symlink(b"r", d + b"/k"); os.mkdir(d + b"/q"); os.mkdir(d + b"/q/m"); open(d + b"/q/m/x", "w").close()

def expected(ents, dev, roots, how, L):
    """-> Counter of paths.  dev: real path -> device number (None: that of the parent)"""
    kind = dict(ents); kind.update({b"q": "d", b"q/m": "d", b"q/m/x": "f", b"k": b"r"})
    def rdev(p):
        while True:
            if dev.get(p) is not None: return dev[p]
            if b"/" not in p: return -1
            p = p.rpartition(b"/")[0]
    out = []
    def go(shown, real, pdev, depth, anc):
        k = kind[real]
        if k not in ("d", "f") and (L or depth == 0 and ROOTFOLLOW(shown)):
            real = os.path.normpath(os.path.join(os.path.dirname(real), k)) if real != b"k" else b"r"
            k = kind[real]
        me = rdev(real)
        if L and k == "d" and real in anc: return  # loop: an error
        if how == "-mount" and depth and me != pdev: return
        out.append(shown)
        if k == "d" and not (how == "-xdev" and depth and me != pdev):
            for p in kind:
                if p.startswith(real + b"/") and b"/" not in p[len(real) + 1:]: go(join(shown, p[len(real) + 1:]), p, me, depth + 1, anc | {real})
    for r in roots: go(r, r.rstrip(b"/"), None, 0, frozenset())
    return collections.Counter(out)
ROOTFOLLOW = lambda shown: shown.endswith(b"/")

def work(job):
    ents, assigns, deep = job
    st = vc.wstate(); st["n"] += 1
    d = os.path.join(os.fsencode(st["dir"]), b"%d" % st["n"]); os.mkdir(d)
    build(d, ents)
    out = dict(evals=0, states=0, events=0, distinct=0, violations=[], samples=[])
    haslink = any(k not in ("d", "f") for _, k in ents)
    for dev in assigns:
        opts = ["nouring", "timeout 5000"] + [vc.rule("stat", p, 1, 0, "V", v if v else 0) for p, v in dev.items() if v is not None] + [vc.rule("stat", "r", 1, 0, "V", 0)] * (dev.get(b"r") is None)
        dv = dict(dev)
        if dv.get(b"r") is None: dv[b"r"] = 0
        runs = []
        rootsets = [[b"r"]] + ([[b"k/"], [b"q", b"r"], [b"r", b"r/"]] if deep else [])
        for how in ("-xdev", "-mount", None):
            for L in ((False, True) if haslink else (False,)):
                for rs in rootsets:
                    want = expected(ents, dv, rs, how, L)
                    for S, j, post in CFG if how else CFG[:2]:
                        runs.append((want, L, [*(["-L"] if L else []), "-S", S, "-j%d" % j, *rs, *([how] if how else []), *(["-depth"] if post else [])]))
        out["states"] += 1
        for (want, L, args), r in zip(runs, st["srv"].batch([x[2] for x in runs], d, opts=opts)):
            out["evals"] += 1; out["events"] += r.out.count(b"\n"); out["distinct"] += len(set(v for v in dev.values() if v is not None)) > 0
            def bad(r):
                if r.timeout or r.sig is not None: return "crash or hang"
                if collections.Counter(r.lines()) != want: return "printed %r instead of %r" % (sorted(r.lines()), sorted(want.elements()))
                if not L and (r.status or r.err): return "exit status %r, %r" % (r.status, r.err)
            w = bad(r)
            if w:
                r = st["srv"].run(args, d, opts=opts); w = bad(r)
            if w: out["violations"].append(("%s: bfs %s on %r with devices %r" % (w, " ".join(os.fsdecode(a) for a in args), ents, dev), r.brief())); break
        if len(out["violations"]) > 2: break
    if st["n"] % 50 == 1: out["samples"].append("%r with %d placements of devices" % (ents, len(assigns)))
    shutil.rmtree(d)
    return out

def main(chk):
    global BFSX, RAM, CFG
    b = vc.Build(cflags="-g -O1"); BFSX = b.bfsx()
    RAM = vc.ramscratch("mnt")
    CFG = [("bfs", 1, 0), ("bfs", 2, 0), ("dfs", 1, 1), ("ids", 1, 0), ("eds", 2, 0), ("dfs", 2, 0), ("ids", 2, 1)]
    jobs = []
    for ents in trees():
        ps = [p for p, k in ents if p != b"r" and k in ("d", "f")]
        k = dict(ents)
        big = len(ents) >= 5
        # every node keeps its parent's device, or is a mount of device 1, 2, or the root's again
        opt = [(None, 1) if k[p] == "f" else (None, 1, 2, 0) for p in ps]
        al = []
        for c in itertools.product(*opt):
            if big and not THOROUGH and sum(x is not None for x in c) > 2: continue
            al.append({p: v for p, v in zip(ps, c)})
        for i in range(0, len(al), 24): jobs.append((ents, al[i:i + 24], not big))
        if not big: jobs.append((ents, [{**a, b"r": 7, b"q/m": 7} for a in al], True))
    chk.extra["hierarchies"] = sum(1 for _ in trees())
    vc.parallel(jobs, work, chk, winit, chunk=2)

vc.main("C19", "model_checking", "every hierarchy of up to %d nodes x every placement of up to three device numbers on its nodes (files included) x -xdev/-mount/neither x strategies x threads x -depth x -L with links to every node x roots; printed paths compared with a reference walk" % NODES, main,
        ["device numbers are substituted in the results of statx (mounting is not possible here); io_uring is switched off, since it would bypass that"])
