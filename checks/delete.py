#!/usr/bin/env python3
"""C10: what -delete removes, for every small hierarchy, expression, walk configuration and failing removal.
bfs runs in a jail (removals outside it are refused and recorded); the oracle replays the visit order bfs reports on a
second copy of the hierarchy, evaluating the expression and removing files itself."""
import sys, os, itertools, shutil, stat, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vc, model

THOROUGH = vc.TIER == "thorough"
STRATS = ("bfs", "dfs", "ids", "eds")

def winit(st):
    st["srv"] = vc.Server(BFSX)
    st["dir"] = os.path.join(CWD, "w%d" % os.getpid()); os.mkdir(st["dir"])
    st["n"] = 0

OUT = ("d", {b"x": ("f", 0), b"y": ("d", {b"z": ("f", 0)}), b"q": ("f", 3)})

def build(base, tree):
    """base/j/{r,out,keep}: r is searched, out and keep may only be reached through links."""
    os.mkdir(base)
    model.make(os.fsencode(base), b"r", tree)
    model.make(os.fsencode(base), b"out", OUT)
    model.make(os.fsencode(base), b"keep", ("d", {b"k": ("f", 1)}))
    os.symlink(b"r", os.path.join(base, "rl"))
    os.symlink(b"out", os.path.join(base, "ol"))

def snapshot(base):
    out = set()
    for d, ds, fs in os.walk(os.fsencode(base)):
        for n in ds + fs: out.add(os.path.join(d, n)[len(base):])
    return out

class Eval:
    """Evaluates an expression and performs removals in the second copy."""
    def __init__(s, follow, fails, races):
        s.out = []; s.errs = []; s.follow = follow; s.fails = fails; s.att = 0; s.quit = False; s.races = races; s.ndel = 0
    def name(s, p): return p.rstrip(b"/").rpartition(b"/")[2] or b"/"
    def st(s, p):
        if s.follow == "L" or s.follow == "H" and s.depth == 0:
            try: return os.stat(p)
            except OSError: pass
        return os.lstat(p)
    def typ(s, p, t):
        m = s.st(p).st_mode
        return {"d": stat.S_ISDIR, "f": stat.S_ISREG, "l": stat.S_ISLNK}[t](m)
    def empty(s, p):
        b = s.st(p)
        if stat.S_ISDIR(b.st_mode): return not os.listdir(p)
        return stat.S_ISREG(b.st_mode) and b.st_size == 0
    def say(s, c, p): s.out.append(c + p); return True
    def rm(s, p):
        if p == b".": return True
        s.att += 1
        try:
            if s.att in s.fails: raise OSError(s.fails[s.att], "")
            if stat.S_ISDIR(os.lstat(p).st_mode): os.rmdir(p)
            else: os.unlink(p)
        except OSError as e:
            if not (s.races and e.errno in (vc.E("ENOENT"), vc.E("ENOTDIR")) and s.depth > 0): s.errs.append(p)
            return False
        s.ndel += 1
        return True

P = lambda c: ["-printf", c + "%p\\0"]
PROGS = {
 "all": (["-delete", *P("A")], lambda e, p: e.rm(p) and e.say(b"A", p)),
 "rm": (["-rm", *P("A")], lambda e, p: e.rm(p) and e.say(b"A", p)),
 "name": (["-name", "a", "-delete", *P("A")], lambda e, p: e.name(p) == b"a" and e.rm(p) and e.say(b"A", p)),
 "notname": (["!", "-name", "a", "-delete", *P("A")], lambda e, p: e.name(p) != b"a" and e.rm(p) and e.say(b"A", p)),
 "files": (["-type", "f", "-delete", *P("A")], lambda e, p: e.typ(p, "f") and e.rm(p) and e.say(b"A", p)),
 "dirs": (["-type", "d", "-delete", *P("A")], lambda e, p: e.typ(p, "d") and e.rm(p) and e.say(b"A", p)),
 "links": (["-type", "l", "-delete", *P("A")], lambda e, p: e.typ(p, "l") and e.rm(p) and e.say(b"A", p)),
 "empty": (["-empty", "-delete", *P("A")], lambda e, p: e.empty(p) and e.rm(p) and e.say(b"A", p)),
 "else": (["-name", "a", "-delete", *P("A"), "-o", *P("E")], lambda e, p: e.name(p) == b"a" and e.rm(p) and e.say(b"A", p) or e.say(b"E", p)),
 "twice": (["-delete", *P("A"), "-delete", *P("C")], lambda e, p: e.rm(p) and e.say(b"A", p) and e.rm(p) and e.say(b"C", p)),
 "not": (["!", "-delete", *P("N")], lambda e, p: (not e.rm(p)) and e.say(b"N", p)),
 "comma": (["-name", "b", "-delete", ",", "-name", "a", "-delete", *P("A")], lambda e, p: (e.name(p) == b"b" and e.rm(p), e.name(p) == b"a" and e.rm(p) and e.say(b"A", p))),
 "or": (["(", "-type", "d", "-o", "-name", "b", ")", "-delete", *P("A")], lambda e, p: (e.typ(p, "d") or e.name(p) == b"b") and e.rm(p) and e.say(b"A", p)),
 "quit": (["-delete", *P("A"), "-name", "a", "-quit"], lambda e, p: e.rm(p) and e.say(b"A", p) and e.name(p) == b"a" and setattr(e, "quit", True)),
 "quitbefore": (["-name", "a", "-quit", "-o", "-delete", *P("A")], lambda e, p: setattr(e, "quit", True) if e.name(p) == b"a" else e.rm(p) and e.say(b"A", p)),
 "false": (["-false", "-delete", "-o", *P("A")], lambda e, p: e.say(b"A", p)),
 "prune": (["-name", "a", "-prune", "-o", "-delete", *P("A")], lambda e, p: e.name(p) != b"a" and e.rm(p) and e.say(b"A", p)),
}

def expected_visits(roots, follow, mind, maxd, base):
    """Multiset of (path, depth) of the static hierarchy."""
    out = []
    def rec(p, d, anc):
        try: os.lstat(p)
        except OSError: return     # "file/": an error
        if mind <= d <= maxd: out.append((p, d))
        try: sb = os.stat(p) if follow == "L" or follow == "H" and d == 0 else os.lstat(p)
        except OSError: return
        if stat.S_ISDIR(sb.st_mode) and d < maxd:
            for n in os.listdir(p): rec(model.join(p, n), d + 1, anc)
    for r in roots: rec(os.fsencode(r), 0, ())
    return out

def one(job):
    if job[0] == "long": return longpaths(job)
    tree, roots, follow, prog, flags, mind, maxd, fails, extra, rules = job
    st = vc.wstate(); st["n"] += 1
    a = os.path.join(st["dir"], "j%d" % st["n"]); b = os.path.join(st["dir"], "s%d" % st["n"])
    out = dict(evals=1, states=1, events=0, distinct=0, violations=[])
    try:
        build(a, tree); build(b, tree)
        args = [*flags, *(["-" + follow] if follow else []), *[r.replace("@", a) for r in roots]]
        if mind: args += ["-mindepth", str(mind)]
        if maxd < 99: args += ["-maxdepth", str(maxd)]
        args += [*extra, *P("V"), *PROGS[prog][0]]
        opts = ["jail " + a, "trace", "nouring", "timeout 20000", *rules, *(vc.rule("unlink", "*", k - i, k - i, "E", e) for i, (k, e) in enumerate(sorted(fails.items())))]   # a call that one rule fails is not counted by the next
        r = st["srv"].run(args, a, opts=opts)
        w = judge(r, a, b, roots, follow, prog, flags, mind, maxd, fails, extra)
        out["events"] = r.calls["unlink"]; out["distinct"] = r.calls["unlink"] > 0
        if w: out["violations"].append(("%s: bfs %s" % (w.replace(a, "@"), " ".join(args)), "%r\nroots %r fails %r rules %r\n%s\n%s" % (tree, roots, fails, rules, r.brief(), r.trace.decode(errors="replace")[-1500:])))
    finally:
        shutil.rmtree(a, ignore_errors=True); shutil.rmtree(b, ignore_errors=True)
    return out

def judge(r, a, b, roots, follow, prog, flags, mind, maxd, fails, extra):
    if r.timeout or r.sig is not None: return "crash or hang"
    if b"ESCAPE" in r.trace: return "tried to remove something outside"
    os.chdir(b)
    ev = Eval(follow, fails, "-ignore_readdir_race" in extra)
    exp = expected_visits([x.replace("@", b) for x in roots], follow, mind, maxd, b)
    fwd = lambda p: p.replace(os.fsencode(b), os.fsencode(a))
    depth = {fwd(p): d for p, d in exp}
    toks = r.out.split(b"\0")[:-1]
    ev.errs += [x for x in map(os.fsencode, roots) if not os.path.lexists(x.replace(b"@", os.fsencode(b)))]
    V = [t[1:] for t in toks if t[:1] == b"V"]
    # each directory after its contents, within each root
    seen = set()
    for i, p in enumerate(V):
        if len(roots) == 1 and any((x.startswith(p + b"/") or p.endswith(b"/") and x.startswith(p)) for x in V[i + 1:]): return "%r visited before something in it" % p
    for p in V:
        if p not in depth: return "visited %r" % p
        ev.depth = depth[p]
        ev.say(b"V", p)
        PROGS[prog][1](ev, p.replace(os.fsencode(a), os.fsencode(b)))
        if ev.quit: break
    want = [fwd(x) for x in ev.out]
    if toks != want:
        i = next(i for i, (x, y) in enumerate(itertools.zip_longest(toks, want)) if x != y)
        return "output %d is %r instead of %r" % (i, toks[i] if i < len(toks) else None, want[i] if i < len(want) else None)
    sa, sb = snapshot(a), snapshot(b)
    if sa - sb: return "not removed: %r" % sorted(sa - sb)
    if sb - sa: return "removed: %r" % sorted(sb - sa)
    if not ev.quit and sorted(V) != sorted(fwd(p) for p, _ in exp): return "visited %r instead of %r" % (V, exp)
    errs = [l for l in r.err.split(b"\n") if b"error:" in l]
    if "-noerror" in extra:
        if errs or r.status: return "-noerror, but %r, status %r" % (errs, r.status)
        return None
    if len(errs) != len(ev.errs): return "%d errors reported for failed removals %r" % (len(errs), ev.errs)
    for p in ev.errs:
        if not any(fwd(p) in l for l in errs): return "no error about %r" % p
    if (r.status != 0) != bool(ev.errs): return "exit status %r with failed removals %r" % (r.status, ev.errs)
    return None

def longpaths(job):
    """A chain of directories, each with a file, whose paths pass PATH_MAX: everything (or every file) goes."""
    _, lens, prog, flags, follow = job
    st = vc.wstate(); st["n"] += 1
    a = os.path.join(st["dir"], "j%d" % st["n"])
    out = dict(evals=1, states=1, events=0, distinct=0, violations=[])
    try:
        os.mkdir(a); os.mkdir(a + "/keep"); open(a + "/keep/k", "w").close()
        os.chdir(a); os.mkdir("r"); os.chdir("r")
        for i, n in enumerate(lens):
            open("f", "w").close(); os.symlink(a + "/keep", "l"); os.mkdir("d" * n); os.chdir("d" * n)
        os.chdir("/")
        args = [*flags, *([follow] if follow else []), "r", *{"all": ["-delete"], "files": ["-type", "f", "-delete"], "links": ["-type", "l", "-delete"], "notroot": ["-mindepth", "1", "-delete"]}[prog]]
        r = st["srv"].run(args, a, opts=["jail " + a, "trace", "nouring", "timeout 20000"])
        left = {"d": 0, "f": 0, "l": 0}
        def rec():
            for e in os.listdir("."):
                if os.path.islink(e): left["l"] += 1
                elif os.path.isdir(e):
                    left["d"] += 1; os.chdir(e); rec(); os.chdir("..")
                else: left["f"] += 1
        if os.path.isdir(a + "/r"):
            left["d"] += 1; os.chdir(a + "/r"); rec()
        os.chdir("/")
        n = len(lens)
        want = {"all": dict(d=0, f=0, l=0), "files": dict(d=n + 1, f=0, l=n), "links": dict(d=n + 1, f=n, l=0), "notroot": dict(d=1, f=0, l=0)}[prog]
        out["events"] = r.calls["unlink"]; out["distinct"] = 1
        w = None
        if r.timeout or r.sig is not None: w = "crash or hang"
        elif b"ESCAPE" in r.trace: w = "tried to remove something outside"
        elif not os.path.exists(a + "/keep/k"): w = "removed the target of a link"
        elif left != want: w = "left %r instead of %r" % (left, want)
        elif r.status or r.err: w = "status %r" % r.status
        if w: out["violations"].append(("%s: bfs %s on directories with names of %r bytes inside each other" % (w, " ".join(args), lens), r.brief()))
    finally:
        os.chdir("/"); shutil.rmtree(a, ignore_errors=True)
    return out

def leaves(t, path=()):
    if t[0] != "d": yield path
    else:
        for n in t[1]: yield from leaves(t[1][n], path + (n,))
def subst(t, path, node):
    if not path: return node
    return ("d", {n: subst(c, path[1:], node) if n == path[0] else c for n, c in t[1].items()})

def main(chk):
    global BFSX, CWD
    b = vc.Build(cflags="-g -O1"); BFSX = b.bfsx()
    CWD = os.path.realpath(vc.ramscratch("delete"))
    N = 6 if THOROUGH else 5
    plain = {n: [model.label(s, [b"b", b"a", b"-c", b"a b", b".h"]) for s in model.shapes(n)] for n in range(1, N + 1)}
    kinds = {"f": ("f", 0), "F": ("f", 1), "lf": None, "ld": None, "lb": None, "li": None, "p": ("p",)}
    def decorated(n):
        for t in plain[n]:
            ls = list(leaves(t))
            for combo in itertools.product(("f", "F", "lf", "ld", "lb", "li"), repeat=len(ls)):
                x = t; ok = True
                if combo.count("ld") > 1: continue
                for l, k in zip(ls, combo):
                    up = b"../" * len(l)
                    x = subst(x, l, {"f": ("f", 0), "F": ("f", 1), "lf": ("l", up + b"out/x"), "ld": ("l", up + b"out"), "lb": ("l", b"nowhere"), "li": ("l", b".")}[k])
                yield x, combo
    jobs = []
    def add(t, roots=("r",), follow="", prog="all", S="bfs", j=1, s=False, mind=0, maxd=99, fails={}, extra=(), rules=()):
        jobs.append((t, list(roots), follow, prog, ["-S", S, "-j%d" % j, *(["-s"] if s else [])], mind, maxd, dict(fails), list(extra), list(rules)))
    # 1. every hierarchy x expression x strategy
    for n in range(1, N + 1):
        for t in plain[n]:
            for prog in PROGS:
                for S in STRATS:
                    if n == N and S not in ("bfs", "dfs"): continue
                    if n == N and prog in ("rm", "comma", "or", "false") and not THOROUGH: continue
                    for j in ((1, 3) if n <= 4 else (2,)):
                        add(t, prog=prog, S=S, j=j, s=j == 1)
    # 2. links, with each way to follow them, and roots
    for n in range(2, 5 if THOROUGH else 4):
        for t, combo in decorated(n):
            for fo in ("", "P", "H", "L"):
                if fo == "L" and "li" in combo: continue   # loops
                for prog in ("all", "links", "files", "dirs", "empty", "else"):
                    for S in ("bfs", "dfs") + (("ids", "eds") if n <= 2 else ()):
                        if fo in ("P", "H") and S != "bfs": continue
                        add(t, follow=fo, prog=prog, S=S)
                if n == 2 or n == 3 and combo.count("f") >= len(combo) - 1:
                    for rt in (["rl"], ["rl/"], ["ol"], ["ol/"], ["r/"], ["./r"], ["."], ["./"], ["r/."], ["r//"], ["@/r"], ["r/b"], ["r/b/"], ["r/a", "r/b"], ["..//" + "w"]):
                        if rt[0].startswith("../"): continue
                        if fo == "L" and (rt[0] in (".", "./")): continue   # everything would be reached twice
                        if fo == "L" and rt[0].startswith("ol") and "ld" in combo: continue
                        if "li" in combo and rt[0] in ("r/a", "r/b", "r/b/"): continue   # removes itself
                        for prog in ("all", "name", "dirs"):
                            if any(not os.path.basename(x.rstrip("/")).encode() in t[1] for x in rt if x.startswith("r/") and x.rstrip("/") != "r" and x != "r/."): continue
                            add(t, roots=rt, follow=fo, prog=prog, S="dfs" if prog == "name" else "bfs")
    # 3. depth limits
    for n in range(2, 5):
        for t in plain[n]:
            for mi in range(0, 4):
                for ma in range(0, 4):
                    if (mi, ma) == (0, 3): continue
                    for S in STRATS: add(t, prog="all", S=S, mind=mi, maxd=ma)
    # 4. each removal fails, alone and with another
    for n in range(1, 5):
        for t in plain[n]:
            for prog in ("all", "else", "not", "empty", "comma") if n < 4 or THOROUGH else ("all", "else"):
                for k in range(1, n + 1):
                    for e in ("EACCES", "EBUSY", "EIO", "EPERM", "EROFS", "ENOENT", "ENOTEMPTY", "EISDIR"):
                        add(t, prog=prog, S="bfs" if k % 2 else "dfs", fails={k: vc.E(e)})
                        if prog == "all" and e in ("EACCES", "ENOENT"):
                            for ex in (["-noerror"], ["-ignore_readdir_race"]): add(t, prog=prog, S="bfs", fails={k: vc.E(e)}, extra=ex)
                            for S in STRATS: add(t, prog=prog, S=S, fails={k: vc.E(e)})
                    for k2 in range(k + 1, n + 1): add(t, prog=prog, S="bfs", fails={k: 13, k2: 16})
    # 5. unknown directory entry types
    U = [vc.rule("getdents", "*", 1, 0, "U", 0)]
    for n in range(2, 4):
        for t, combo in decorated(n):
            for fo in ("", "L"):
                if fo == "L" and "li" in combo: continue
                for prog in ("all", "dirs", "links"): add(t, follow=fo, prog=prog, rules=U)
    # 6. a large one
    big = ("d", {b"d%02d" % i: ("d", {b"f%02d" % k: ("f", 0) for k in range(40)}) for i in range(12)})
    deep = ("d", {b"f": ("f", 0)})
    for i in range(60): deep = ("d", {b"n": deep, b"a": ("f", 0)})
    for t in (big, deep):
        for S in STRATS:
            for prog in ("all", "notname", "files"):
                for j in (1, 4): add(t, prog=prog, S=S, j=j)
    # 7. paths around and beyond PATH_MAX
    for lens in [[255] * k for k in (14, 15, 16, 17, 18, 33)] + [[255] * 15 + [k] for k in ((250, 251, 252, 253, 254) if not THOROUGH else range(200, 256))] + [[100] * 45]:
        for prog in ("all", "files", "links", "notroot"):
            for S in STRATS:
                for j in (1, 3):
                    for fo in ("",) + (("-H",) if S == "bfs" else ()): jobs.append(("long", lens, prog, ["-S", S, "-j%d" % j], fo))
    chk.extra["hierarchies"] = len({repr(j[0]) for j in jobs})
    vc.parallel(jobs, one, chk, winit, chunk=16)

vc.main("C10", "model_checking", "every hierarchy up to the node bound (with every assignment of file, link and directory-link leaves up to a smaller bound) x expressions around -delete x strategies, threads, depth limits, root spellings, -P/-H/-L, with every single and double failing removal; the resulting hierarchy, outputs and errors are compared with those of an independent evaluator that follows the same visit order in a second copy", main,
        ["the hierarchy is changed only by bfs itself while it runs", "removals are confined to a scratch directory by interposition; anything outside it is refused and reported"])
