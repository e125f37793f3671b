#!/usr/bin/env python3
"""C13: every allocation of a run fails in turn (alone, and with all later ones), under address and UB sanitizers."""
import sys, os, re, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vc, model

THOROUGH = vc.TIER == "thorough"
F = ("f", 0)
COLORS = "rs=0:di=01;34:ln=target:or=31:mi=05:ex=01;32:*.c=33:*.tar.gz=35:*README=36:st=37;44:ow=34;42:tw=30;42:su=37;41:*.C=0:no=0:*~=90"

def cmds():
    T = "r"
    yield [T], {}
    for S in ("bfs", "dfs", "ids", "eds"):
        yield ["-S", S, "-s", T], {}
        yield ["-S", S, T, "-depth"], {}
        yield ["-S", S, "-L", T, "-s"], {}
    for j in ("-j1", "-j2", "-j4"):
        yield [j, "-s", T, "-printf", "%p %s %l %y\\n"], {}
        yield [j, "-s", "-L", T, "-unique"], {}
        yield [j, "-s", "-S", "dfs", T, "r/a", "-name", "*.c"], {}
    yield [T, "-s", "-color"], {"LS_COLORS": COLORS}
    yield ["-L", T, "-s", "-color", "-printf", "%p %P %f %h %l\\n"], {"LS_COLORS": COLORS}
    yield ["-s", T, "-color", "-exec", "true", "{}", "+", "-print"], {"LS_COLORS": COLORS + ":garbage", "BFS_COLORS": "di=1:*.x=2"}
    yield ["-s", T, "-ls"], {}
    yield ["-s", T, "-printf", "%A@ %b %c %C+ %d %D %f %F %g %G %h %H %i %k %l %m %M %n %p %P %s %S %t %T+ %u %U %w %y %Y %Z\\n"], {}
    yield ["-s", T, "-printf", "%-20p|%5.3f|%+d %#m %010s\\n\\t\\033\\c", "-printf", "x"], {}
    yield ["-s", T, "-exec", "echo", "{}", ";"], {}
    yield ["-s", T, "-exec", "echo", "x{}y", "{}", ";"], {}
    yield ["-s", T, "-exec", "echo", "{}", "+"], {}
    yield ["-s", T, "-execdir", "echo", "{}", "+"], {}
    yield ["-s", T, "-execdir", "echo", "{}", ";"], {}
    yield ["-s", T, "-regextype", "posix-extended", "-regex", ".*/(a|b).*", "-o", "-iregex", ".*c"], {}
    yield ["-s", T, "-iname", "*A*", "-o", "-path", "r/b*", "-o", "-lname", "*a*"], {}
    yield ["-s", T, "-newer", "r/a", "-o", "-anewer", "r/a", "-o", "-newermt", "2020-01-01", "-o", "-samefile", "r/b.c"], {}
    yield ["-s", T, "-user", "root", "-group", "root", "!", "-nouser", "!", "-nogroup"], {}
    yield ["-s", T, "-perm", "-u+r", "-size", "-2k", "-links", "-4", "-inum", "+0", "-mtime", "-9", "-empty"], {}
    yield ["-s", T, "-readable", "-xattr", "-o", "-acl", "-o", "-capable", "-o", "-sparse", "-o", "-print"], {}
    yield ["-s", T, "-fstype", "tmpfs", "-print"], {}
    yield ["-s", T, "-mount", "-print"], {}
    yield ["-s", T, "-exclude", "-name", "b*", "-nohidden", "-print0"], {}
    yield ["-s", T, "-name", "a", "-prune", "-o", "-printx"], {}
    yield ["-s", T, "-fprint", "/dev/stdout", "-fprint", "/dev/null", "-fprintf", "/dev/null", "%p", "-fls", "/dev/null"], {}
    yield ["-O0", "-s", T, "(", "-name", "a", "-o", "!", "-type", "d", ")", "-a", "-print"], {}
    yield ["-O3", "-s", T, "-type", "f", "-type", "d", "-o", "-name", "*", "-name", "*", "-print", ",", "-size", "1", "-size", "2"], {}
    yield ["-O4", "-s", T, "!", "(", "!", "-name", "a", "-o", "-false", ")", "-print"], {}
    yield ["-files0-from", "roots", "-s"], {}
    yield ["-X", "-s", T], {}
    yield ["-s", T, "-quit"], {}
    yield ["-s", T, "-limit", "2"], {}
    yield ["-s", T, "-depth", "-name", "zzz", "-delete"], {}
    yield ["-s", T, "-maxdepth", "1", "-mindepth", "1", "-daystart", "-used", "1", "-o", "-print"], {}
    yield ["-D", "opt,tree,rates,cost", "-s", T, "-name", "a", "-print"], {}
    yield ["-D", "search,exec,stat", "-j1", "-s", T, "-exec", "true", "{}", "+"], {}
    yield ["-s", "nonexistent", T], {}
    yield ["-s", T, "-nosuchoption"], {}
    yield ["-s", T, "-regex", "("], {}
    yield ["-s", T, "-type", "q"], {}
    yield ["-version"], {}
    for S in ("ids", "eds"):
        yield ["-S", S, "-s", T, "-name", "a", "-prune", "-o", "-print"], {}
        yield ["-S", S, "-s", "-L", T, T, "-unique"], {}
        yield ["-S", S, "-s", T, "nonexistent", "-exclude", "-name", ".h"], {}
    for a in (["-s", "r", "deep"], ["-j2", "-s", "deep", "r", "-size", "-9"], ["-S", "dfs", "-s", "r", "-depth"], ["-s", "r", "-execdir", "echo", "{}", "+"]):
        yield a, {"NOFILE": "12"}
    yield ["wide", "-s"], {}
    yield ["deep", "-S", "dfs"], {}
    yield ["-j4", "wide", "deep", "-s", "-size", "+0"], {}
    yield ["-s", T, "-status", "-nocolor"], {"TERM": "xterm", "COLUMNS": "80", "LINES": "24"}

def winit(st): st["srv"] = vc.Server(BFSX)

def toks(b): return collections.Counter(b.replace(b"\0", b"\n").split(b"\n"))

def sub(x, y):
    it = iter(y)
    return all(c in it for c in x)
def norm(b):
    """Numbers may stand in for user and group names that cannot be looked up (the files are root's); columns may then shift."""
    return re.sub(rb"(?<![\w/.])root(?![\w/.])", b"0", re.sub(rb" +", b" ", b))
def partof(a, b):
    """Parts of a that are not part of b: a has all of b's lines, except that some, or fields of some, are missing."""
    a, b = norm(a), norm(b)
    if sub(a, b): return []
    return [x for x in toks(a) - toks(b) if not any(sub(x, y) for y in toks(b))]

def one(job):
    args, env, n, frm, to, uring, base = job
    lim = ["nofile %s" % env["NOFILE"]] if "NOFILE" in env else []
    status, bout, berr, allowed = base
    st = vc.wstate()
    out = dict(evals=0, states=0, events=0, distinct=0, violations=[])
    for k in range(frm, to + 1):
        # alone; with all later ones; thorough: with each later one
        for last in (k, 0, *(-k2 for k2 in (range(k + 1, n + 2) if THOROUGH and n < 130 else ()))):
            r = st["srv"].run(args, CWD, env={**vc.BASE_ENV, **env}, opts=[*lim, "timeout 30000", *([] if uring else ["nouring"]), vc.rule("malloc", "*", k, max(last, 0) if last >= 0 else k, "E", vc.E("ENOMEM")), *([vc.rule("malloc", "*", -last - 1, -last - 1, "E", vc.E("ENOMEM"))] if last < 0 else [])])
            out["evals"] += 1; out["states"] += 1
            hit = any(r.hits)
            out["distinct"] += hit; out["events"] += sum(r.hits)
            w = None
            if r.timeout: w = "hangs"
            elif r.sig is not None or b"Sanitizer" in r.err or b"runtime error" in r.err: w = "crashes"
            elif r.orphans: w = "leaves a child process behind"
            elif (r.status, r.out) == (status, bout): pass
            elif r.status == status and status == 0 and toks(norm(r.out)) == toks(norm(bout)): pass
            elif r.status == 0: w = "exits 0 with other output than normally"
            elif not r.err: w = "exits %d without saying why" % r.status
            elif partof(r.out, allowed): w = "prints %r, which is not part of the normal output" % partof(r.out, allowed)[:3]
            if w: out["violations"].append(("%s when allocation %s fails: bfs %s" % (w, "%d" % k if last > 0 else "%d and all later ones" % k if not last else "%d and %d" % (k, -last), " ".join(args)), "%s\nnormally: %r %r %r" % (r.brief() + r.err[600:4000].decode(errors="replace"), status, bout[:600], berr[:300])))
            if len(out["violations"]) > 1: return out
    return out

def main(chk):
    global BFSX, CWD
    b = vc.Build(cflags="-g -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer", tag="asan"); BFSX = b.bfsx()
    CWD = vc.ramscratch("oom")
    t = ("d", {b"a": ("d", {b"x": F, b"y.C": F, b"README": F}), b"b.c": ("f", 100), b"b.tar.gz": F, b"l": ("l", b"a"), b"broken": ("l", b"nowhere"), b"loop": ("l", b"."), b".h": ("d", {b"z~": F}), b"p": ("p",), b"s p": F})
    cwd = os.fsencode(CWD)
    model.make(cwd, b"r", t)
    model.make(cwd, b"wide", ("d", {b"f%03d" % i + b"x" * 60: F for i in range(70)}))
    deep = ("d", {b"f": F})
    for i in range(40): deep = ("d", {b"d" + b"y" * 50: deep})
    model.make(cwd, b"deep", deep)
    open(os.path.join(CWD, "roots"), "wb").write(b"r/a\0r/b.c\0r/l\0")
    os.chmod(os.path.join(CWD, "r/s p"), 0o4755)
    # the run without failures
    jobs = []
    winit(vc.wstate())
    total = 0
    for args, env in cmds():
        lim = ["nofile %s" % env["NOFILE"]] if "NOFILE" in env else []
        r = vc.wstate()["srv"].run(args, CWD, env={**vc.BASE_ENV, **env}, opts=[*lim, "nouring", "timeout 30000"])
        if r.sig is not None or r.timeout: chk.violation("the run without failures crashes: bfs %s" % " ".join(args), r.brief()); continue
        allowed = r.out
        if {"-unique", "-limit", "-quit"} & set(args):   # a file that cannot be evaluated is not counted as seen
            allowed += vc.wstate()["srv"].run([a for i, a in enumerate(args) if a not in ("-unique", "-limit", "-quit") and args[i - 1] != "-limit" and a != "-L"], CWD, env={**vc.BASE_ENV, **env}, opts=["nouring"]).out
        n = r.calls["malloc"]; total += n
        for u in (False, True) if THOROUGH or args[0] in ("-j2", "-j4") else (False,):
            for f in range(1, n + 2, 8): jobs.append((args, env, n, f, min(f + 7, n + 1), u, (r.status, r.out, r.err, allowed)))
    vc.wstate()["srv"].stop(); vc.wstate().clear()
    chk.extra["commands"] = len(list(cmds())); chk.extra["allocations"] = total
    vc.parallel(jobs, one, chk, winit, chunk=2)

vc.main("C13", "model_checking", "for each command line, every allocation bfs makes during the run fails in turn, alone and together with all later ones, under address and undefined-behaviour sanitizers; the result is compared with the run without failures", main,
        ["allocations made inside libc and other libraries do not fail", "with several threads, the schedules the OS produces"])
