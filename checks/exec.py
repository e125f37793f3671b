#!/usr/bin/env python3
"""C09: the commands run by -exec, -execdir, -ok and -okdir, for every small hierarchy, command shape, outcome and refusal."""
import sys, os, itertools, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vc, model

THOROUGH = vc.TIER == "thorough"
STRATS = ("bfs", "dfs", "ids", "eds")
F = ("f", 0)
FORK = "nofile 200 4096"     # bfs raises the limit, and must reset it in the child: the fork path
PSPAWN = "nofile 4096 4096"  # nothing to reset: the posix_spawn path

def winit(st):
    st["srv"] = vc.Server(BFSX)
    st["log"] = os.path.join(CWD, "log.%d" % os.getpid())

def run(args, cwd, opts=(), env=None):
    st = vc.wstate(); log = st["log"]
    if os.path.exists(log): os.unlink(log)
    r = st["srv"].run([log if a is LOG else SPY if a is CMD else a for a in args], cwd, opts=["timeout 20000", *opts], env=env)
    return r, vc.spy_records(open(log, "rb").read()) if os.path.exists(log) else []
class Tok:
    def __init__(s, n): s.n = n
    def __repr__(s): return s.n
LOG = Tok("LOG"); CMD = Tok("SPY")

def show(args): return " ".join(a.n if isinstance(a, Tok) else a if isinstance(a, str) else repr(a) for a in args)
def split(out):
    B = []; A = []
    for x in out.split(b"\0")[:-1]: (B if x[:1] == b"B" else A).append(x[1:])
    return B, A

def wd(cwd, path):
    """Where -execdir runs, and the argument it passes."""
    cwd = os.fsencode(cwd)
    p = path.rstrip(b"/")
    if not p: return b"/", path
    i = p.rfind(b"/")
    d = b"" if i < 0 else p[:i + 1]
    return os.path.realpath(os.path.join(cwd, d)), b"./" + path[i + 1:]

EXITS = ["0", "3", "s15", "has:a:1", "has:b:5"]
def ok(spec, args):
    if spec.startswith("has:"): _, s, n = spec.split(":"); return not any(s.encode() in a for a in args)
    return spec == "0"

TMPLS = [["{}"], ["x", "{}", "y"], ["a{}b"], ["{}{}"], ["-{}-{}-", "{}"], ["{", "}", "{ }"], [], ["", "{}", ""], ["x", "+", "{}"], ["{}}", "{{}"], ["{}/{}"]]

def single(job):
    """'-exec ... ;' : one command per match."""
    cwd, roots, flags, action, tmpl, spec, opts = job
    out = dict(evals=1, states=1, events=0, distinct=0, violations=[])
    args = [*flags, *roots, "-printf", "B%p\\0", action, CMD, LOG, spec, *tmpl, ";", "-printf", "A%p\\0"]
    r, recs = run(args, cwd, opts)
    B, A = split(r.out)
    exp = []; after = []
    for p in B:
        d, a = wd(cwd, p) if "dir" in action else (os.fsencode(os.path.realpath(cwd)), p)
        av = [t.encode().replace(b"{}", a) for t in tmpl]
        exp.append((d, av))
        if ok(spec, av): after.append(p)
    got = [(c, a) for c, _, _, a in recs]
    out["events"] = len(got); out["distinct"] = bool(got)
    w = None
    if r.timeout or r.sig is not None: w = "crash or hang"
    elif got != exp:
        i = next((i for i, (x, y) in enumerate(itertools.zip_longest(got, exp)) if x != y))
        w = "command %d was %r instead of %r" % (i, got[i] if i < len(got) else None, exp[i] if i < len(exp) else None)
    elif A != after: w = "true for %r instead of %r" % (A, after)
    elif r.status != 0: w = "exit status %r" % r.status
    elif r.orphans: w = "children left behind"
    if w: out["violations"].append(("%s: bfs %s" % (w, show(args)), "in %s, opts %r\n%s" % (cwd, opts, r.brief())))
    return out

def size(a): return len(a) + 1 + 8
def multi_wrong(cwd, action, B, recs, fixed, argmax=None, env=None, maxargs=None, spec="0"):
    """What is wrong with the batches, or None."""
    flat = []
    for c, _, _, a in recs:
        if a[:len(fixed)] != fixed: return "fixed arguments %r" % a[:len(fixed)]
        a = a[len(fixed):]
        if not a: return "a command without files"
        for x in a: flat.append((c, x))
        if argmax and argmax > 0:
            total = sum(map(size, [SPY.encode(), vc.wstate()["log"].encode(), spec.encode(), *fixed, *a])) + 8 + sum(len(k) + len(v) + 2 + 8 for k, v in env.items()) + 8
            if total > argmax and len(a) > 1: return "a command of %d bytes where the limit is %d" % (total, argmax)
        if maxargs and len(a) > maxargs: return "%d files in one command" % len(a)
    exp = [wd(cwd, p) if "dir" in action else (os.fsencode(os.path.realpath(cwd)), p) for p in B]
    if flat != exp:
        i = next((i for i, (x, y) in enumerate(itertools.zip_longest(flat, exp)) if x != y))
        return "file %d was passed as %r instead of %r" % (i, flat[i] if i < len(flat) else None, exp[i] if i < len(exp) else None)
    return None

def multi(job):
    """'-exec ... {} +' : every match in exactly one command, in order."""
    cwd, roots, flags, action, fixed, spec, opts, tail, env, argmax = job
    out = dict(evals=1, states=1, events=0, distinct=0, violations=[])
    args = [*flags, *roots, "-printf", "B%p\\0", action, CMD, LOG, spec, *fixed, "{}", "+", "-printf", "A%p\\0", *tail]
    env = env or vc.BASE_ENV
    r, recs = run(args, cwd, opts + (["argmax %d" % argmax] if argmax else []), env)
    B, A = split(r.out)
    out["events"] = len(recs); out["distinct"] = len(recs) > 1 or bool(recs)
    fx = [f.encode() for f in fixed]
    failed = any(not ok(spec, a) for _, _, _, a in recs)
    w = multi_wrong(cwd, action, B, recs, fx, argmax, env, spec=spec)
    if r.timeout or r.sig is not None: w = "crash or hang"
    elif w: pass
    elif A != B: w = "true for %r instead of %r" % (A, B)
    elif (r.status == 0) == failed: w = "exit status %r although %s" % (r.status, "a command failed" if failed else "all commands succeeded")
    elif r.orphans: w = "children left behind"
    if w: out["violations"].append(("%s: bfs %s" % (w, show(args)[:300]), "in %s, opts %r argmax %r\n%s\n%s" % (cwd, opts, argmax, r.brief(), [(c, a[:9]) for c, _, _, a in recs][:40])))
    return out

def refuse(job):
    """The system refuses to run commands: once, twice or from some point on."""
    cwd, roots, flags, action, plus, rules, path, kind = job
    out = dict(evals=1, states=1, events=0, distinct=0, violations=[])
    args = [*flags, *roots, "-printf", "B%p\\0", action, CMD, LOG, "0", "{}", "+" if plus else ";", "-printf", "A%p\\0"]
    r, recs = run(args, cwd, ["trace", "nouring", path, *rules])
    B, A = split(r.out)
    hit = any(r.hits)
    out["events"] = len(recs) + sum(r.hits); out["distinct"] = hit
    w = None
    if r.timeout or r.sig is not None: w = "crash or hang"
    elif r.orphans: w = "children left behind"
    elif plus and kind == "limit":
        # E2BIG is worked around by running smaller batches
        w = multi_wrong(cwd, action, B, recs, [])
        if not w and r.status != 0: w = "exit status %r" % r.status
        if not w and A != B: w = "true for %r instead of %r" % (A, B)
    elif not plus:
        # every command was attempted; those that could not be run are false, with an error
        got = [(c, a[0]) for c, _, _, a in recs]
        exp = [wd(cwd, p) if "dir" in action else (os.fsencode(os.path.realpath(cwd)), p) for p in A]
        if got != exp: w = "true for %r but the commands run were %r" % (A, got)
        elif len(B) - len(A) != sum(r.hits): w = "%d commands could not be run, but %d of %d were true" % (sum(r.hits), len(A), len(B))
        elif hit and (r.status == 0 or not r.err): w = "a command could not be run, but status %r, stderr %r" % (r.status, r.err)
        elif not hit and r.status != 0: w = "exit status %r" % r.status
    else:
        # no file twice, order kept, each command within one directory; files missing only with an error
        flat = [(c, x) for c, _, _, a in recs for x in a]
        exp = [wd(cwd, p) if "dir" in action else (os.fsencode(os.path.realpath(cwd)), p) for p in B]
        it = iter(exp)
        if not all(x in it for x in flat): w = "files %r are not a subsequence of %r" % (flat, exp)
        elif A != B: w = "true for %r instead of %r" % (A, B)
        elif flat != exp and r.status == 0: w = "files were lost without an error: %r" % [x for x in exp if x not in flat]
        elif flat == exp and not hit and r.status != 0: w = "exit status %r" % r.status
        elif hit and kind not in ("E2BIG", "dup") and r.status == 0: w = "a command could not be run, but the exit status is 0"
    if w: out["violations"].append(("%s: bfs %s" % (w, show(args)), "in %s, rules %r, %s\n%s\n%s" % (cwd, rules, path, r.brief(), [(c, a[:9]) for c, _, _, a in recs][:40])))
    return out

def confirm(job):
    """-ok asks, and runs the command exactly when the answer is yes."""
    cwd, flags, action, answers = job
    out = dict(evals=1, states=1, events=0, distinct=0, violations=[])
    args = [*flags, "r", "-printf", "B%p\\0", action, CMD, LOG, "0", "{}", ";", "-printf", "A%p\\0"]
    r, recs = run(args, cwd, [b"stdin " + b"".join(answers)])
    B, A = split(r.out)
    yes = [i < len(answers) and answers[i][:1] in b"yY" and answers[i] != b"\n" for i in range(len(B))]
    after = [p for p, y in zip(B, yes) if y]
    exp = [wd(cwd, p) if "dir" in action else (os.fsencode(os.path.realpath(cwd)), p) for p in after]
    got = [(c, a[0]) for c, _, _, a in recs]
    out["events"] = len(B); out["distinct"] = bool(after)
    w = None
    if r.timeout or r.sig is not None: w = "crash or hang"
    elif got != exp: w = "ran %r instead of %r" % (got, exp)
    elif A != after: w = "true for %r instead of %r" % (A, after)
    elif r.err.count(b"? ") != len(B): w = "%d prompts for %d files" % (r.err.count(b"? "), len(B))
    elif r.status != 0: w = "exit status %r" % r.status
    if w: out["violations"].append(("%s: bfs %s" % (w, show(args)), "answers %r\n%s" % (answers, r.brief())))
    return out

def special(job):
    k, = job
    out = dict(evals=1, states=1, events=0, distinct=1, violations=[])
    cwd = os.path.join(CWD, "sp")
    if k == "self":
        # the command itself may be {}
        r, recs = run(["r", "-name", "spy", "-exec", "{}", LOG, "0", "{}", ";", "-print"], cwd)
        good = r.status == 0 and [a for _, _, _, a in recs] == [[b"r/spy"]] and r.out == b"r/spy\n"
    elif k == "selfdir":
        r, recs = run(["r", "-name", "spy", "-execdir", "{}", LOG, "0", "{}", ";", "-print"], cwd)
        good = r.status == 0 and [(c, a) for c, _, _, a in recs] == [(os.fsencode(os.path.join(cwd, "r")), [b"./spy"])] and r.out == b"r/spy\n"
    elif k in ("missing", "missing+", "noexec", "noexec+"):
        cmd = "/nonexistent/cmd" if k.startswith("m") else os.path.join(cwd, "r/f")
        r, recs = run(["r", "-exec", cmd, "{}", "+" if k.endswith("+") else ";", "-printf", "A%p\\0"], cwd)
        good = r.status != 0 and r.err and (k.endswith("+") or r.out == b"")
    elif k == "path":
        r, recs = run(["-f", "r/f", "-exec", "spy", LOG, "0", "{}", ";"], cwd, env={**vc.BASE_ENV, "PATH": "/usr/bin:%s:/bin" % os.path.join(cwd, "r")})
        good = r.status == 0 and [a for _, _, _, a in recs] == [[b"r/f"]]
    elif k == "relpath":
        # a relative $PATH entry would run commands from the searched directories
        r, recs = run(["-f", "r/f", "-execdir", "spy", LOG, "0", "{}", ";"], cwd, env={**vc.BASE_ENV, "PATH": "/usr/bin:.:/bin"})
        good = r.status != 0 and not recs and r.err
    elif k == "two":
        r, recs = run(["-S", "dfs", "-s", "r", "-exec", CMD, LOG, "0", "1", "{}", "+", "-exec", CMD, LOG, "has:zzz:1", "2", "{}", "+", "-execdir", CMD, LOG, "0", "3", "{}", "+"], cwd)
        good = r.status == 0
        for n in (b"1", b"2"): good = good and [x for _, _, _, a in recs if a[0] == n for x in a[1:]] == [b"r", b"r/f", b"r/spy"]
        good = good and [x for _, _, _, a in recs if a[0] == b"3" for x in a[1:]] == [b"./r", b"./f", b"./spy"]
    out["events"] = len(recs)
    if not good: out["violations"].append(("special case %s" % k, r.brief() + "\n%r" % recs))
    return out

def work(j): return {"s": single, "m": multi, "r": refuse, "c": confirm, "x": special}[j[0]](j[1:])

def main(chk):
    global BFSX, CWD, SPY
    b = vc.Build(cflags="-g -O1"); BFSX = b.bfsx(); SPY = vc.build_spy(b.dir)
    CWD = os.path.realpath(vc.ramscratch("exec"))
    dirs = []
    i = 0
    for n in range(1, (6 if THOROUGH else 5) + 1):
        for sh in model.shapes(n):
            d = os.path.join(CWD, "t%d" % i); os.mkdir(d); model.make(os.fsencode(d), b"r", model.label(sh, [b"b", b"a", b"-c", b"a b", b"{}"])); dirs.append((d, n)); i += 1
    chk.extra["hierarchies"] = i
    # a larger one, with names of different lengths
    big = os.path.join(CWD, "big"); os.mkdir(big)
    t = ("d", {b"d%d" % k: ("d", {b"f%d" % j + b"x" * (j * 7 % 23): F for j in range(9)}) for k in range(4)})
    t[1][b"deep"] = ("d", {b"e": ("d", {b"g": F, b"h": ("d", {b"i": F})}), b"z": F})
    model.make(os.fsencode(big), b"r", t)
    sp = os.path.join(CWD, "sp"); os.makedirs(os.path.join(sp, "r")); open(os.path.join(sp, "r/f"), "w").close(); os.symlink(SPY, os.path.join(sp, "r/spy"))
    jobs = [("x", k) for k in ("self", "selfdir", "missing", "missing+", "noexec", "noexec+", "path", "relpath", "two")]
    def roots(d, n):
        return [["r"], ["r/"], ["./r"], [os.path.join(d, "r")], ["."], ["r", "r/"], ["r//", "./r/"]]
    def flagsets(full):
        for S in STRATS:
            for o in ((), ("-depth",)) if full else ((),):
                yield ["-S", S, "-s", *o]
    # 1. every hierarchy x strategy x roots x form
    for d, n in dirs:
        for fl in flagsets(True):
            for rt in roots(d, n):
                if n > 4 and not THOROUGH and (fl[1] not in ("bfs", "dfs") or rt[0] not in ("r/", ".")): continue
                jobs.append(("m", d, rt, fl, "-execdir", [], "0", [PSPAWN], [], None, None))
                if n <= 3 or rt == ["r/"]: jobs.append(("s", d, rt, fl, "-execdir", ["{}"], "0", [PSPAWN]))
                if n <= 4 and rt in (["r"], ["r/"]): jobs.append(("m", d, rt, fl, "-exec", ["q"], "has:a:1", [FORK], [], None, None))
    # 2. templates and outcomes
    for d, n in dirs:
        if n > 4: continue
        for act in ("-exec", "-execdir"):
            for tm in TMPLS:
                for sp_ in EXITS:
                    if n > 3 and not THOROUGH and (tm not in TMPLS[:3] or sp_ == "s15"): continue
                    for path in (PSPAWN, FORK):
                        jobs.append(("s", d, ["r"], ["-S", "dfs", "-s"], act, tm, sp_, [path]))
            for sp_ in EXITS:
                for tail in ([], ["-name", "a", "-quit"], ["-quit"], ["-name", "a", "-prune"], ["-name", "b", "-exit", "0"]):
                    for path in (PSPAWN, FORK):
                        if "-exit" in tail: continue
                        jobs.append(("m", d, ["r"], ["-S", "bfs", "-s"], act, [], sp_, [path], tail, None, None))
    # 3. argument limits: every value from "nothing fits" on
    env2 = {**vc.BASE_ENV, "BIG": "v" * 9000}
    for act in ("-exec", "-execdir"):
        for env in (None, env2):
            for fixed in ([], ["y" * 8000, "z"]):
                e = env or vc.BASE_ENV
                base = 6144 + sum(len(k) + len(v) + 2 + 8 for k, v in e.items()) + sum(map(len, fixed)) + 9 * len(fixed)
                lo, hi, st = (base - 200, base + 1600, 24 if not THOROUGH else 4)
                for am in list(range(lo, hi, st)) + [-1, 100, 4096, 1 << 20, 1 << 40]:
                    jobs.append(("m", big, ["r"], ["-S", "dfs" if am % 2 else "bfs", "-s"], act, fixed, "0", [PSPAWN if am % 3 else FORK], [], env, am))
                    if am > 0 and am % 5 == 0: jobs.append(("m", big, ["r"], ["-S", "dfs", "-s"], act, fixed, ("has:d0:1", "has:d2:1", "has:z:1")[am % 3], [PSPAWN if am % 3 else FORK], [], env, am))
    # the environment, the fixed arguments and the files all larger than the headroom
    wide = os.path.join(CWD, "wide"); os.mkdir(wide)
    model.make(os.fsencode(wide), b"r", ("d", {b"%03d" % k + b"x" * (40 + k % 60): F for k in range(500)}))
    env3 = {**vc.BASE_ENV, **{"V%d" % k: "" for k in range(2000)}}
    for act in ("-exec", "-execdir"):
        for env in (None, env3, env2):
            for fixed in ([], ["y"] * 1500, ["y" * 30000]):
                e = env or vc.BASE_ENV
                base = 6144 + sum(len(k) + len(v) + 2 + 8 for k, v in e.items()) + sum(map(len, fixed)) + 9 * len(fixed)
                for am in (base - 5000, base + 50, base + 500, base + 3000, base + 15000, base + 40000, base + 80000, -1):
                    jobs.append(("m", wide, ["r"], ["-s"], act, fixed, "0" if am % 2 else "has:123x:1", [PSPAWN if am % 3 else FORK], [], env, am))
    # 4. refusals
    for act in ("-exec", "-execdir"):
        for path in (PSPAWN, FORK):
            for plus in (True, False):
                d4 = [d for d, n in dirs if n in (3, 4)]
                for d in d4 + [big]:
                    for cls, e in (("spawn", "EAGAIN"), ("spawn", "ENOMEM"), ("spawn", "E2BIG"), ("exec", "EACCES"), ("exec", "ENOEXEC"), ("exec", "E2BIG"), ("pipe", "EMFILE"), ("chdir", "EACCES"), ("dup", "EMFILE")):
                        if cls in ("exec", "pipe", "chdir") and path == PSPAWN: continue
                        if cls == "chdir" and act == "-exec" or cls == "dup" and not (act == "-execdir" and plus): continue
                        for a in (range(1, 6) if d != big else (1, 2, 7)):
                            for z in (a, a + 1, 0):
                                if d == big and z == a + 1: continue
                                if not plus and e == "E2BIG" and z != a: continue
                                jobs.append(("r", d, ["r"], ["-S", "bfs" if a % 2 else "dfs", "-s"], act, plus, [vc.rule(cls, "*", a, z, "E", vc.E(e))], path, "dup" if cls == "dup" else e if plus else "e"))
            for d in d4 + [big]:
                for k in range(1, 12 if d == big else 5):

                    jobs.append(("r", d, ["r"], ["-S", "dfs" if k % 2 else "bfs", "-s"], act, True, [vc.rule("spawn", "*", 1, 0, "A", 3 + k)], path, "limit"))
                if d == big:
                    for k in range(200, 900, 10 if THOROUGH else 35):
                        jobs.append(("r", d, ["r"], ["-S", "bfs", "-s"], act, True, [vc.rule("spawn", "*", 1, 0, "B", len(SPY) + k)], path, "limit"))
    # 5. -ok
    for act in ("-ok", "-okdir"):
        for d, n in dirs:
            if n not in (3,) and not THOROUGH: continue
            for k in range(0, 4):
                for ans in itertools.product((b"y\n", b"n\n", b"\n", b"yes\n", b"x\n"), repeat=k):
                    if k == 3 and b"yes\n" in ans: continue
                    jobs.append(("c", d, ["-S", "bfs", "-s"], act, list(ans)))
    vc.parallel(jobs, work, chk, winit, chunk=8)

vc.main("C09", "model_checking", "every hierarchy up to the node bound x strategies x root spellings x -exec forms; every template and outcome; every argument-size limit in a range; every single, double and persistent refusal to start a command, and every limit on the number or size of arguments (E2BIG), on both spawn paths; every short sequence of -ok answers; each command records its directory and arguments, compared with the files bfs says it evaluated", main,
        ["commands are run one at a time and record themselves; the system's refusals are injected at posix_spawn/fork/exec"])
