#!/usr/bin/env python3
"""C25: someone else changes the hierarchy in the middle of a walk: every change, before every system call of the run."""
import sys, os, collections, shutil, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vc

THOROUGH = vc.TIER == "thorough"
# kind: d, f, or the target of a link
TREE = [("r", "d"), ("r/a", "d"), ("r/a/x", "f"), ("r/a/y", "d"), ("r/a/y/z", "f"), ("r/b", "d"), ("r/b/e", "d"), ("r/b/w", "f"), ("r/c", "f"), ("r/l", "a"),
        ("q", "d"), ("q/f", "f")]
STOCK = [("s", "d"), ("s/f", "f"), ("s/g", "f"), ("s/d", "d"), ("s/d/n", "f"), ("s/d/m", "d"), ("s/d/m/o", "f"), ("out", "d")]
KIND = dict(TREE)
def under(p, q): return q == p or q.startswith(p + "/")
def below(p): return [q for q, _ in TREE if under(p, q)]

def remove(p): return ["%s %s" % ("r" if KIND[q] == "d" else "u", q) for q in reversed(below(p))]

def mutations():
    """-> (what, script, paths changed, paths that exist before or after and did not before, is anything moved away rather than removed)"""
    new_d = lambda p: [p, p + "/n", p + "/m", p + "/m/o"]
    for p, k in TREE:
        if p == "q": continue
        yield "remove " + p, remove(p), [p], [], False
        if p != "r":
            yield "replace %s by a file" % p, remove(p) + ["m s/f " + p], [p], [p], False
            yield "replace %s by a directory" % p, remove(p) + ["m s/d " + p], [p], new_d(p), False
            yield "move %s away" % p, ["m %s out/o" % p], [p], [], True
            for t in ("r/b/t", "r/a/y/t", "q/t"):
                if not under(p, t): yield "move %s to %s" % (p, t), ["m %s %s" % (p, t)], [p, t], [t + q[len(p):] for q in below(p)], True
        if k == "d":
            yield "add a file to " + p, ["m s/f %s/t" % p], [p + "/t"], [p + "/t"], False
            yield "add a directory to " + p, ["m s/d %s/t" % p], [p + "/t"], new_d(p + "/t"), False
    yield "remove r/a/x, move r/b to it", ["u r/a/x", "m r/b r/a/x"], ["r/a/x", "r/b"], ["r/a/x", "r/a/x/e", "r/a/x/w"], True
    yield "exchange r/a/y and r/b/e", ["m r/a/y out/o", "m r/b/e r/a/y", "m out/o r/b/e"], ["r/a/y", "r/b/e"], ["r/b/e/z"], True

EXPRS = [["-print"], ["-depth", "-print"], ["-size", "-9999", "-print"], ["-empty", "-print", "-o", "-print"], ["-L", "-print"], ["-L", "-depth", "-type", "d", "-print", "-o", "-print"],
         ["-ignore_readdir_race", "-print"], ["-ignore_readdir_race", "-depth", "-size", "-9999", "-print"], ["-ignore_readdir_race", "-L", "-empty", "-print", "-o", "-print"],
         ["-type", "f", "-delete"], ["-ignore_readdir_race", "-type", "f", "-delete"], ["-ignore_readdir_race", "-delete"]]

def winit(st):
    st["srv"] = vc.Server(BFSX); st["dir"] = os.path.join(RAM, "w%d" % os.getpid()); os.mkdir(st["dir"]); st["tree"] = None

def snapshot(d):
    out = set()
    for p, ds, fs in os.walk(d):
        for n in ds + fs: out.add(os.path.relpath(os.path.join(p, n), d))
    return out

ALL = {p for p, _ in TREE + STOCK}
def rebuild(st):
    d = os.path.join(st["dir"], "t")
    if st["tree"] is not None: shutil.rmtree(d)
    os.mkdir(d)
    for p, k in TREE + STOCK:
        q = os.path.join(d, p)
        if k == "d": os.mkdir(q)
        elif k == "f": os.close(os.open(q, os.O_WRONLY | os.O_CREAT, 0o644))
        else: os.symlink(k, q)
    st["tree"] = d
    return d

def names(L):
    """path -> the object it denotes (through the link, with -L)"""
    out = {p: p for p, _ in TREE}
    if L:
        out["r/l"] = "r/a"
        for q in below("r/a"):
            if q != "r/a": out["r/l" + q[3:]] = q
    return out

def judge(r, a, mut, roots):
    what, script, changed, fresh, moved = mut
    L = "-L" in a; delete = "-delete" in a; post = "-depth" in a or delete; race = "-ignore_readdir_race" in a
    if r.timeout or r.sig is not None: return "crash or hang"
    if b" failed " in r.trace and re.search(rb"^MUTATE \S+ failed", r.trace, re.M) and not delete: return None if "exchange" in what else "the change could not be made"
    nm = names(L)
    hit = lambda p: any(under(c, p) or under(c, nm.get(p, p)) or L and under("r/l", p) and under(c, "r/a" + p[3:]) for c in changed)
    may = set(nm) | set(fresh)
    if L: may |= {"r/l" + p[3:] for p in fresh if under("r/a", p)}
    if L and "r/l" in changed: may |= {"r/a"}
    # a moved link or directory shows what is below it under its new name, too
    got = [l.decode() for l in r.lines()]
    cnt = collections.Counter(got)
    err = set()
    for l in r.err.split(b"\n"):
        if not l: continue
        if not l.startswith(b"bfs: error: "): return "unexpected message"
        err.add(l[12:].split(b": ")[0].decode())
    for p in err:
        if delete and fresh and any(under(p, c) for c in changed): continue   # not empty after all
        if not hit(p): return "an error about %s, which did not change" % p
    if (r.status != 0) != bool(err): return "exit status %r with errors about %r" % (r.status, sorted(err))
    if race and any(p not in roots for p in err) and not (delete and a[-1] == "-delete" and "-type" not in a): return None if delete and fresh and all(any(under(p, c) for c in changed) for p in err) else "an error about %s in spite of -ignore_readdir_race" % sorted(err)[0]
    if not delete:
        # where something was replaced, the old and the new may both be seen
        for p in cnt:
            if cnt[p] > 1 + (p in KIND and p in fresh or L and "r/a" + p[3:] in fresh and under("r/l", p)): return "%s was visited twice" % p
        for p in nm:
            if any(under(x, p) for x in roots) and not hit(p) and p not in cnt: return "%s was lost" % p
        # below something that was moved, the names below it follow it
        for p in got:
            if p not in may and not any(under(c, p) for c in changed): return "%s was visited, which never existed" % p
        at = {p: i for i, p in enumerate(got)}
        for p in got:
            q = p.rpartition("/")[0]
            if q in at and (at[q] < at[p]) == post and not hit(q): return "%s and %s in the wrong order" % (p, q)
    return None

def after(d, a, mut, roots, st):
    """-delete: what is left"""
    what, script, changed, fresh, moved = mut
    now = snapshot(d)
    hit = lambda p: any(under(c, p) for c in changed)
    for p, k in TREE + STOCK:
        if hit(p) or any(under(o.split(" ")[1], p) for o in script): continue
        inside = any(under(x, p) for x in roots)
        if "-type" in a: gone = inside and k == "f"
        else:
            gone = inside
            if k == "d" and inside and any(under(p, c) for c in changed): continue   # may not be empty
        if gone and p in now: return "%s was not removed" % p
        if not gone and p not in now: return "%s was removed" % p
    return None

def work(job):
    S, j, s, uring, e, mi = job
    st = vc.wstate(); srv = st["srv"]
    out = dict(evals=0, states=0, events=0, distinct=0, violations=[], samples=[], extra={})
    mut = MUTS[mi]
    delete = "-delete" in e
    if delete and mut[4]: return out          # what was moved elsewhere may be removed there
    if "-L" in e and any(o.startswith("m r/l") for o in mut[1]): return out   # would point elsewhere
    a = ["-S", S, "-j%d" % j, *(["-s"] if s else []), "r", "q", *e]
    roots = ["r", "q"]
    d = rebuild(st)
    opts = ["trace", "timeout 10000"] + ([] if uring else ["nouring"]) + (["jail " + d] if delete else [])
    base = srv.run(a, d, opts=opts)
    calls = collections.Counter(m.group(1) for m in re.finditer(rb"^(open|getdents|stat|close|unlink) (?:r|q)[ /]", base.trace, re.M))
    w = judge(base, a, ("nothing", [], [], [], False), roots)
    if w or base.status: out["violations"].append(("%s without any change: bfs %s" % (w or "failure", " ".join(a)), base.brief())); return out
    tot = collections.Counter(m.group(1) for m in re.finditer(rb"^(open|getdents|stat|close|unlink) ", base.trace, re.M))
    if delete: d = rebuild(st)
    dirty = False
    for cls in sorted(calls):
        if cls == b"unlink": n = calls[cls]
        else: n = tot[cls]
        for k in range(1, n + 2):
            if dirty: d = rebuild(st)
            o = opts + ["mutate " + "\n".join(mut[1]), vc.rule(cls, "*", k, k, "M", 0)]
            r = srv.run(a, d, opts=o)
            out["evals"] += 1; out["events"] += r.trace.count(b"\n")
            hit = b"MUTATE\n" in r.trace
            dirty = hit or delete
            if not hit:
                if delete: continue
                break
            out["states"] += 1; out["distinct"] += 1
            if "MUTATE" and delete and b" failed " in r.trace and re.search(rb"^MUTATE \S+ failed", r.trace, re.M): continue   # already removed by bfs
            w = judge(r, a, mut, roots) or (delete and after(d, a, mut, roots, st))
            if w:
                out["violations"].append(("%s: %s before %s %d of bfs %s" % (w, mut[0], cls.decode(), k, " ".join(a)), "%s\nscript %r\noptions %r" % (r.brief(), mut[1], o)))
                return out
    return out

MUTS = list(mutations())
def main(chk):
    global BFSX, RAM
    b = vc.Build(cflags="-g -O1"); BFSX = b.bfsx()
    RAM = vc.ramscratch("races")
    jobs = []
    CFG = ((1, True, False), (1, False, False), (2, True, False), (3, False, True))
    for ei, e in enumerate(EXPRS):
        for si, S in enumerate(("bfs", "dfs", "ids", "eds")):
            for j, s, u in CFG if THOROUGH else CFG[(ei + si) % 4:][:1]:
                for m in range(len(MUTS)):
                    if THOROUGH or "to r/a/y/t" not in MUTS[m][0] and "to q/t" not in MUTS[m][0] or (ei + m) % 4 == 0: jobs.append((S, j, s, u, e, m))
    chk.extra["changes"] = len(MUTS)
    vc.parallel(jobs, work, chk, winit, chunk=4)

vc.main("C25", "model_checking", "every change of a list (removing, replacing, moving or adding every file and directory of a hierarchy) made by someone else right before every open, directory read, stat, close and removal of a whole run, for every strategy, thread counts, -s, -depth, -L, -empty, -ignore_readdir_race and -delete", main,
        ["a directory that is replaced by a link to a directory elsewhere is followed (not judged)", "what is at or below a changed path may be seen before or after the change"])
