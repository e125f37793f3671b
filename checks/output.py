#!/usr/bin/env python3
"""C14: every write (and close) of every output fails in turn, every byte at which a disk fills up, every sharing of output files."""
import sys, os, itertools, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vc, model

THOROUGH = vc.TIER == "thorough"
F = ("f", 0)

def winit(st):
    st["srv"] = vc.Server(BFSX)
    st["dir"] = os.path.join(CWD, "w%d" % os.getpid()); os.mkdir(st["dir"])
    os.symlink(os.path.join(CWD, "r"), os.path.join(st["dir"], "r")); os.symlink(os.path.join(CWD, "big"), os.path.join(st["dir"], "big"))

FILES = ["o", "f", "g"]
def fresh(d, old=b""):
    """o: standard output; f = ./f = h (hard link) = s (symbolic link); g"""
    for n in ("o", "f", "g", "h", "s"):
        if os.path.lexists(os.path.join(d, n)): os.unlink(os.path.join(d, n))
    for n in ("f", "g"): open(os.path.join(d, n), "wb").write(old)
    os.link(os.path.join(d, "f"), os.path.join(d, "h")); os.symlink("f", os.path.join(d, "s"))

def run(args, opts, old=b""):
    st = vc.wstate(); d = st["dir"]
    fresh(d, old)
    r = st["srv"].run(args, d, opts=["nouring", "timeout 30000", "outfile " + os.path.join(d, "o"), *opts])
    if r.status == 93: raise RuntimeError("seccomp filters are not available")
    got = {n: open(os.path.join(d, n), "rb").read() for n in FILES}
    return r, got

# ---------------------------------------------------------------- 1. sharing
def parents(p): return p
def render(act, p):
    k, t = act
    if k == "print": return p + b"\n"
    if k == "print0": return p + b"\0"
    if k == "printf": return b"[" + p + b"]"
    if k == "printx": return p.replace(b" ", b"\\ ") + b"\n"
TARGET = {"-": "o", "f": "f", "./f": "f", "h": "f", "s": "f", "g": "g", "/dev/stdout": "o", "@/f": "f"}
def cmd(act, d):
    k, t = act
    t = t.replace("@", d)
    if t == "-": return {"print": ["-print"], "print0": ["-print0"], "printf": ["-printf", "[%p]"], "printx": ["-printx"]}[k]
    return {"print": ["-fprint", t], "print0": ["-fprint0", t], "printf": ["-fprintf", t, "[%p]"]}[k]

def share(job):
    acts, conds, tree, flush, j = job
    out = dict(evals=1, states=1, events=0, distinct=0, violations=[])
    d = vc.wstate()["dir"]
    args = ["-s", "-j%d" % j, tree]
    for a, c in zip(acts, conds):
        args += ["(", *c, *cmd(a, d), *(["-exec", "true", ";"] if flush else []), "-false", ")", "-o"]
    args += ["-false"]
    r, got = run(args, [], b"old contents\n" * 50)
    want = {n: b"" for n in FILES}
    touched = {TARGET[t] for _, t in acts} | {"o"}
    for n in FILES:
        if n not in touched: want[n] = b"old contents\n" * 50
    for p in VISIT[tree]:
        for a, c in zip(acts, conds):
            if not c or c[0] == "-name" and p.rpartition(b"/")[2] == c[1].encode() or c[0] == "!" and p.rpartition(b"/")[2] != c[2].encode():
                if c != ["-false"]: want[TARGET[a[1]]] += render(a, p)
    out["events"] = sum(map(len, want.values())); out["distinct"] = len({TARGET[t] for _, t in acts}) < len(acts)
    w = None
    for n in FILES:
        if got[n] != want[n]: w = "%s holds %r instead of %r" % (n, got[n][:200], want[n][:200])
    if not w and (r.status != 0 or r.err): w = "exit status %r, %r" % (r.status, r.err)
    if w: out["violations"].append(("%s: bfs %s" % (w, " ".join(args)), r.brief()))
    return out

# ---------------------------------------------------------------- 2. failures
def cases():
    for tree in ("r", "big"):
        for fl in ([], ["-exec", "true", ";"]):
            if tree == "big" and fl: continue
            for act in (["-print"], ["-print0"], ["-printf", "%p\\n"], ["-printf", "%p\\c"], ["-printx"], ["-ls"], ["-fprint", "f"], ["-fprint0", "f"], ["-fprintf", "f", "%p %s\\n"], ["-fprintf", "f", "a%p\\cb"], ["-fls", "f"],
                        ["-print", "-fprint", "f"], ["-fprint", "f", "-fprint", "g"], ["-fprint", "f", "-fprintf", "s", "x%p\\n"], ["-fprint", "/dev/stdout", "-print"], ["-color", "-print"], ["-fprint", "f", "-name", "c", "-quit"], ["-print", "-depth"], ["-print", "-noerror"], ["-fls", "f", "-noerror"]):
                yield tree, [*act, *fl]
    yield "r", ["-print", "-exec", "true", "{}", "+"]
    yield "r", ["-fprint", "f", "-exec", "true", "{}", "+"]
    yield "r", ["-fprint", "f", "-execdir", "true", "{}", "+"]
    yield "big", ["-D", "search", "-print"]
    yield "big", ["-X"]
    yield "big", ["-print", "-limit", "200"]
    yield "r", ["-print", "-exit", "0"]

def fails(job):
    """The run with one kind of failure of one output."""
    tree, act, target, k, last, what = job
    out = dict(evals=1, states=1, events=0, distinct=0, violations=[])
    d = vc.wstate()["dir"]
    args = ["-s", "-j1", tree, *act]
    base = BASE[(tree, tuple(act))]
    path = {"o": "<stdout>"}.get(target, target)
    opts = ["trace"]
    if what[0] == "write": opts.append(vc.rule("write", path, k, last, "E", what[1]))
    elif what[0] == "short": opts.append(vc.rule("write", path, k, last, "W", what[1]))
    elif what[0] == "fclose": opts.append(vc.rule("fclose", path, 1, 0, "E", what[1]))
    elif what[0] == "fsize": opts.append("fsize %d" % what[1])
    r, got = run(args, opts)
    hit = any(r.hits) or what[0] == "fsize" and any(len(v) > what[1] for v in base.values())
    out["events"] = sum(r.hits); out["distinct"] = int(hit)
    bad = None
    if r.timeout or r.sig is not None: bad = "crash or hang"
    elif not hit or what[0] == "short":
        if got != base: bad = "an output differs although %s" % ("only short writes happened" if hit else "nothing failed")
        elif r.status != 0 or r.err and "-D" not in act: bad = "exit status %r, %r although nothing failed" % (r.status, r.err)
    else:
        if r.status == 0: bad = "exit status 0"
        elif not r.err and what[0] != "fsize": bad = "no message"   # (the limit applies to standard error too)
        elif what[0] == "fsize":
            for n in FILES:
                if got[n] != base[n][:what[1]] and len(base[n]) <= what[1]: bad = "%s, which did not fill up, differs" % n
        else:
            for n in FILES:
                if n != target and got[n] != base[n]: bad = "%s, whose writes did not fail, holds %r instead of %r" % (n, got[n][-100:], base[n][-100:])
            if what[0] == "fclose" and got != base: bad = "an output differs"
    if bad: out["violations"].append(("%s: bfs %s with %s of %s %s" % (bad, " ".join(args), what, target, k), r.brief() + "\n" + r.trace.decode(errors="replace")[-800:]))
    return out

def special(job):
    args, opts, wantfail, wantmsg = job
    out = dict(evals=1, states=1, events=1, distinct=1, violations=[])
    st = vc.wstate(); fresh(st["dir"])
    r = st["srv"].run(args, st["dir"], opts=["nouring", "timeout 30000", *opts])
    bad = None
    if r.timeout or r.sig is not None: bad = "crash or hang"
    elif wantfail and r.status == 0: bad = "exit status 0"
    elif wantmsg and not r.err: bad = "no message"
    elif not wantfail and r.status != 0: bad = "exit status %r" % r.status
    if bad: out["violations"].append(("%s: bfs %s with %s" % (bad, " ".join(args), opts), r.brief()))
    return out

def work(j): return {"s": share, "f": fails, "x": special}[j[0]](j[1:])

def main(chk):
    global BFSX, CWD, VISIT, BASE
    b = vc.Build(cflags="-g -O1"); BFSX = b.bfsx()
    CWD = os.path.realpath(vc.ramscratch("out"))
    model.make(os.fsencode(CWD), b"r", ("d", {b"a": ("d", {b"c": F}), b"b b": F, b"l": ("l", b"a")}))
    model.make(os.fsencode(CWD), b"big", ("d", {b"d%d" % i: ("d", {b"f%02d" % k + b"-" * (k * 5): F for k in range(24)}) for i in range(8)}))
    VISIT = {"r/": model.sorted_order([(b"r/", ("d", {b"a": ("d", {b"c": F}), b"b b": F, b"l": F}))], "bfs"),
             "big/": model.sorted_order([(b"big/", ("d", {b"d%d" % i: ("d", {b"f%02d" % k + b"-" * (k * 5): F for k in range(24)}) for i in range(8)}))], "bfs")}
    jobs = []
    # 1. sharing: all sequences of up to three actions
    A1 = [(k, t) for k in ("print", "print0", "printf") for t in TARGET] + [("printx", "-")]
    A2 = [(k, t) for k, t in A1 if k == "print"] + [("printf", "-"), ("printf", "f"), ("print0", "h"), ("printf", "s")]
    A3 = [("print", t) for t in ("-", "f", "./f", "h", "s", "g", "/dev/stdout")]
    N = []
    for fl in (False, True):
        for a in A1: jobs.append(("s", [a], [N], "r/", fl, 1))
        for a in itertools.product(A2, repeat=2): jobs.append(("s", list(a), [N, N], "r/", fl, 1))
    for a in itertools.product(A3, repeat=3):
        if not THOROUGH and len({TARGET[t] for _, t in a}) == 3 and a[0][1] != "f": continue
        jobs.append(("s", list(a), [N, ["-name", "c"], N], "r/", False, 1))
    for a in itertools.product(A2, repeat=2): jobs.append(("s", list(a), [["!", "-name", "c"], ["-false"]], "r/", False, 1))
    for a in itertools.product(A3, repeat=2): jobs.append(("s", list(a), [N, N], "big/", False, 2))
    # 2. failures
    winit(vc.wstate())
    BASE = {}
    nwrites = 0
    CASES = [(t, a) for t, a in cases()]
    for tree, act in [*CASES]:
        tr = tree + "/"
        rr, got = run(["-s", "-j1", tr, *act], ["trace", vc.rule("write", "nosuch", 1, 1, "E", 5)])
        if rr.status != 0: chk.violation("exit status %r of an undisturbed run: bfs %s" % (rr.status, " ".join(act)), rr.brief()); continue
        BASE[(tr, tuple(act))] = got
        cnt = {}
        for l in rr.trace.decode(errors="replace").split("\n"):
            p = l.split(" ")
            if p[0] == "write": cnt[p[1]] = cnt.get(p[1], 0) + 1
        for p, n in cnt.items():
            if p not in ("<stdout>", "f", "g", "s"): continue
            t = {"<stdout>": "o"}.get(p, p)
            nwrites += n
            for k in range(1, n + 2):
                for e in ("ENOSPC", "EIO", "EPIPE", "EDQUOT", "EAGAIN"):
                    for last in (k, 0):
                        if e != "ENOSPC" and last == 0: continue
                        jobs.append(("f", tr, act, t, k, last, ("write", vc.E(e))))
                for w in (1, 2, 7, 100):
                    for last in (k, 0): jobs.append(("f", tr, act, t, k, last, ("short", w)))
            if t != "o" and "+" not in act and ";" not in act:
                for e in ("EIO", "ENOSPC"): jobs.append(("f", tr, act, t, 1, 0, ("fclose", vc.E(e))))
        tot = max(map(len, got.values()))
        st = 1 if tot < 150 else 7 if tot < 1000 else 331
        for lim in range(0, tot + st + 1, st): jobs.append(("f", tr, act, "o", 0, 0, ("fsize", lim)))
        for lim in (4095, 4096, 4097, 8192, tot - 1, tot): jobs.append(("f", tr, act, "o", 0, 0, ("fsize", lim)))
    shutil.rmtree(vc.wstate()["dir"]); vc.wstate()["srv"].stop(); vc.wstate().clear()
    chk.extra["writes"] = nwrites
    # 3. /dev/full, closed streams, unwritable files
    for tree, act in CASES:
        full = [x if x not in ("f", "g", "s") else "/dev/full" for x in act]
        toout = not any(a.startswith("-f") for a in act) or "-print" in act or "/dev/stdout" in act
        if toout:
            jobs.append(("x", ["-s", tree + "/", *act], ["outfile /dev/full"], True, True))
            if "/dev/stdout" not in act: jobs.append(("x", ["-s", tree + "/", *act], ["closed 2"], True, True))
        if full != act: jobs.append(("x", ["-s", tree + "/", *full], [], True, True))
        if "-D" not in act:
            if "/dev/stdout" not in act: jobs.append(("x", ["-s", tree + "/", *act], ["errfile /dev/full"], False, False))
            jobs.append(("x", ["-s", tree + "/", "nonexistent", *[a for a in act if a != "-noerror"]], ["errfile /dev/full"], "-exit" not in act, False))
    for a in (["-false", "-print"], ["-false", "-fprint", "/dev/full"], ["-name", "zzz"], ["-name", "zzz", "-fls", "/dev/full"]):
        jobs.append(("x", ["r/", *a], ["outfile /dev/full"], False, False))
        jobs.append(("x", ["r/", *a], ["closed 2"], False, False))
    for a in ("-fprint", "-fprint0", "-fls"):
        jobs.append(("x", ["r/", a, "nodir/x"], [], True, True))
        jobs.append(("x", ["r/", a, "r"], [], True, True))
        jobs.append(("x", ["r/", a, ""], [], True, True))
    jobs.append(("x", ["r/", "-fprintf", "nodir/x", "%p"], [], True, True))
    vc.parallel(jobs, work, chk, winit, chunk=16)

vc.main("C14", "model_checking", "every sequence of up to three output actions over all ways to name the same or different files; for each of a set of commands every write and close of every output fails (once, or from then on) with each error, or is short, and the disk fills up at every byte; file contents, exit status and diagnostics compared with the undisturbed run", main,
        ["bfs's own writes are made by libc on its behalf; they are intercepted at the system call (seccomp)", "standard output itself is closed by the system at exit, so errors first reported by that close are not seen"])
