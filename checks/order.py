#!/usr/bin/env python3
"""C22: every interleaving of roots, flags and options with expressions, every flag group, every small -files0-from list, and every
one-edit misspelling, truncation and insertion of something malformed."""
import sys, os, itertools, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vc, model
from model import F
THOROUGH = vc.TIER == "thorough"

def winit(st): st["srv"] = vc.Server(BFSX)
OPT = ["nouring"]
def new(): return dict(evals=0, states=0, events=0, distinct=0, violations=[])
def compare(out, srv, cases, want, env=None, opts=OPT, cwd=None):
    """cases: [(args, key)]; the output, status and presence of diagnostics must be those of want[key]"""
    cwd = cwd or CWD
    for i in range(0, len(cases), 400):
        part = cases[i:i + 400]
        for (args, key), r in zip(part, srv.batch([a for a, _ in part], cwd, env=env, opts=opts)):
            w = want[key]
            if (r.out, r.status, bool(r.err)) != w:
                r = srv.run(args, cwd, env=env, opts=opts)
                if (r.out, r.status, bool(r.err)) != w:
                    out["violations"].append(("%s differs from %s: bfs %s" % ("output" if r.out != w[0] else "exit status" if r.status != w[1] else "diagnostics", " ".join(map(repr, key)), " ".join(map(repr, args))), "expected: %r\ngot: %s" % (w, r.brief())))
                    if len(out["violations"]) > 3: return
        out["evals"] += len(part); out["events"] += len(part); out["distinct"] += len(part)

def base(srv, key, env=None, opts=OPT, cwd=None):
    r = srv.run(list(key), cwd or CWD, env=env, opts=opts)
    return (r.out, r.status, bool(r.err))

# ---- interleavings.  An expression is a list of units (lists of words).
def u(s): return [x.split(" ") for x in s.split(" | ")]
EXPRS = [u(s) for s in (
    "-name b",
    "-name b | -o | -type d",
    "! | -name b",
    "( | -name b | -o | -type l | ) | -print",
    "-type d | -name a | -prune | -o | -print",
    "-printf %d:%p_ | , | -name b | -print0",
    "-exclude | -name c | -type f",
    "-not | ( | -name c | -a | -type d | ) | -printf %p/%y_",
    "-type f | -exec echo x {} ; | -quit",
    "-type f | -exec echo {} +",
    "-exclude | -hidden | -exclude | ( | -empty | -type d | ) | -print",
)]
MOV = [x.split(" ") for x in ("-L", "-H", "-P", "-s", "-X", "-x", "-d", "-E", "-j1", "-j3", "-S dfs", "-Sids", "-O0", "-O2", "-maxdepth 1", "-mindepth 1", "-depth", "-xdev", "-mount", "-unique", "-follow", "-noleaf", "-ignore_readdir_race", "-noerror", "-nocolor", "-nowarn", "-nohidden", "-status", "--", "-f q2")]
KIND = {"-L": "f", "-H": "f", "-P": "f", "-follow": "f", "-j1": "j", "-j3": "j", "-S": "S", "-Sids": "S", "-O0": "O", "-O2": "O"}
ROOTSETS = [[["q"], ["r"]], [["r"], ["l"]]]
# roots that look like something else; each with single flags only
ODDROOTS = [[["-"], ["r"]], [["r"], ["-"]], [["./q"], ["+"]], [["print"], ["r/"]], [["{}"], ["@"]], [["L"], [";"]]]

def merges(seqs):
    """all interleavings of several sequences, each keeping its own order"""
    if not any(seqs): yield []; return
    for i, s in enumerate(seqs):
        if s:
            for m in merges(seqs[:i] + [s[1:]] + seqs[i + 1:]): yield [(i, s[0])] + m

def inter(job):
    expr, movs, roots = job
    srv = vc.wstate()["srv"]; out = new(); out["states"] = 1
    # a fixed walk order: one thread, and -S/-j/-s only as given
    env = dict(vc.BASE_ENV)
    flags = [m for m in movs if m[0] != "--" and m[0] != "-f"]
    # only the last flag of a kind counts
    eff = [m for i, m in enumerate(flags) if not (m[0] in KIND and any(KIND.get(n[0]) == KIND[m[0]] for n in flags[i + 1:]))]
    pre = [["-j1"]] if not any(m[0].startswith("-j") for m in flags) else []
    if not any(m[0].startswith("-S") for m in flags): pre.append(["-Sbfs"])
    key = [w for m in pre + eff for w in m] + [w for r in roots for w in r] + [w for m in movs if m[0] == "-f" for w in m[1:]] + [w for x in expr for w in x]
    want = {tuple(key): base(srv, tuple(key), env)}
    if want[tuple(key)][1:] != (0, False): out["violations"].append(("well-formed command line rejected: bfs %s" % " ".join(key), repr(want[tuple(key)]))); return out
    unordered = any(m[0] == "-j3" for m in flags) and not any(m[0] == "-s" for m in flags)
    cases = []
    prew = [w for m in pre for w in m]
    rfirst = any(m[0] == "-f" for m in movs)
    for m in merges([expr, movs, roots]):
        ok = True; args = []; prev = None; seenf = False; started = False
        for i, (k, x) in enumerate(m):
            if k == 1 and prev in ("!", "-not", "-exclude") and x[0] != "--": ok = False; break   # there it would be the operand
            if k == 2 and prev == "-exclude": ok = False; break   # (warns)
            if k == 2 and seenf: ok = False; break                # keep -f's path after the other roots
            if k == 1 and x[0] == "-f": seenf = True
            # -d and -depth may take a number, -S/-j/-O an argument: nothing here looks like one
            args += x
            if k == 0: prev = x[0]
            elif k == 1 and x[0] != "--": prev = None
        if ok: cases.append((prew + args, tuple(key)))
    if rfirst: cases = [c for c in cases]
    compare(out, srv, cases, want, env)
    return out

# ---- groups of flags
def groups(job):
    letters, = job
    srv = vc.wstate()["srv"]; out = new(); out["states"] = 1
    cases = []; want = {}
    E = ["-printf", "%p %y_", "-regex", "q/\\(b\\)+"]
    tails = [([], ""), (["-O0"], "O0"), (["-Sdfs"], "Sdfs"), (["-S", "dfs"], "S dfs"), (["-j1"], "j1"), (["r"], "f r")]
    for sep, t in tails:
        g = "-" + "".join(letters) + t
        if not re.search("[A-Z]", g.split(" ")[0]) or len(g) < 3: continue
        if g[1] in "SOjD": continue
        l = [x for i, x in enumerate(letters)]
        key = ["-s"] if "j" not in t else []
        key += ["-" + x for x in l] + sep + ["q", "l"] + E
        key = tuple(key)
        if key not in want: want[key] = base(srv, key)
        args = (["-s"] if "j" not in t else []) + g.split(" ") + ["q", "l"] + E
        if t == "f r":  # the path of the group comes first, as in the separate form
            pass
        cases.append((args, key))
        cases.append((["q"] + (["-s"] if "j" not in t else []) + g.split(" ") + ["l"] + E, tuple(["-s"] if "j" not in t else []) + tuple("-" + x for x in l) + tuple(x for x in sep if x != "r") + ("q",) + (("r",) if t == "f r" else ()) + ("l",) + tuple(E)))
        if cases[-1][1] not in want: want[cases[-1][1]] = base(srv, cases[-1][1])
    compare(out, srv, cases, want)
    return out

# ---- -files0-from
def files0(job):
    contents, where = job
    srv = vc.wstate()["srv"]; out = new()
    d = os.path.join(CWD, "lists"); os.makedirs(d, exist_ok=True)
    for c in contents:
        out["states"] += 1
        parts = c.split(b"\0")
        if parts[-1] == b"": parts.pop()
        f = os.path.join(d, "%s%d" % (c[:8].hex(), len(c)) + "-%d" % os.getpid())
        open(f, "wb").write(c)
        rargs = [w for p in parts for w in (b"-f", p)]
        E = [b"-printf", b"%p %d %H_"]
        if any(p.startswith(b"/") for p in parts): E = [b"-maxdepth", b"0"] + E    # not the real root
        if parts: w = {("roots", c): base(srv, tuple([b"-Sbfs", b"-j1"] + rargs + E), cwd=os.path.join(CWD, "n"))}
        else: w = {("roots", c): (b"", 0, False)}
        k = ("roots", c)
        forms = [[b"-Sbfs", b"-j1", b"-files0-from", f, *E], [b"-Sbfs", *E, b"-j1", b"-files0-from", f], [b"-Sbfs", b"-j1", b"(", b"-files0-from", f, b"-true", b")", *E],
                 [b"-Sbfs", b"-j1", b"-files0-from", os.path.join(CWD, "other"), *E, b"-files0-from", f],
                 [b"-Sbfs", b"-j1", b"-files0-from", os.path.join(CWD, "nonexistent"), *E, b"-files0-from", f]]
        compare(out, srv, [(a, k) for a in forms], w, cwd=os.path.join(CWD, "n"))
        compare(out, srv, [([b"-Sbfs", b"-j1", b"-files0-from", b"-", *E], k)], w, cwd=os.path.join(CWD, "n"), opts=OPT + [b"stdin " + c])
        # not together with roots, wherever they stand
        if len(c) < 3:
            for a in ([b"a", b"-files0-from", f, *E], [b"-files0-from", f, *E, b"a"], [b"-f", b"a", b"-files0-from", f, *E], [b"-files0-from", f, b"(", b"a", *E, b")"]): rejected(out, srv, a, "n")
        os.unlink(f)
        if len(out["violations"]) > 3: break
    return out

def rejected(out, srv, args, sub="q", why="malformed command line", opts=OPT):
    """no output, a diagnostic, a failure, and nothing was searched, run or removed"""
    cwd = os.path.join(CWD, sub) if sub else CWD
    o = opts + ["trace", "jail " + CWD]
    r = srv.run(args, cwd, opts=o)
    out["evals"] += 1; out["events"] += 1; out["distinct"] += 1
    w = judge_rejected(r)
    if w: out["violations"].append(("%s %s: bfs %s" % (why, w, " ".join(map(repr, args))), r.brief() + "\n" + r.trace.decode("latin-1")[:2000]))
def judge_rejected(r, trace=True):
    if r.timeout: return "hangs"
    if r.sig is not None: return "crashes (signal %d)" % r.sig
    if r.status == 0: return "accepted"
    if not r.err: return "rejected without a diagnostic"
    if r.out: return "rejected after output"
    if trace:
        for c in ("getdents", "unlink", "spawn", "exec"):
            if r.calls.get(c): return "rejected after %s" % c
    return None

# ---- malformed lines
NAMES = None
VALID = [x.split(" | ") for x in (
    "f | -name | b | -fprint | /dev/null",
    "f | ( | -type | f | -o | -size | +1k | ) | -delete",
    "-L | f | -type | f | -exec | touch | marker | ; | -print",
    "f | ! | -newer | f/b | -execdir | touch | marker | {} | +",
    "-S | dfs | f | -printf | %p\\n | , | -maxdepth | 3 | -ls",
    "-L | -type | f | -exec | touch | marker | ; | -delete",
)]
BAD = [["-zzz"], ["-maxdepth", "x"], ["-type", "q"], ["-size", "1q"], ["-perm", "u=q"], ["-newer", "nonexistent/file"], ["-regex", "\\("], ["-printf", "%"], ["-newermt", "yesterday"], ["-user", "no such user"], ["-exec", "x", "{}"], ["-exec", ";"], ["-samefile", "nonexistent"], ["-S", "xyz"], ["-Sxyz"], ["-Ox"], ["-j", "x"], ["-jx"], ["-j0"], ["-D"] , ["-files0-from", "nonexistent/file"], ["-files0-from", "."], ["-fprint", "nonexistent/file"], ["-inum", "x"], ["-amin", "-x"], ["-newerxm", "f"], ["-newermx", "f"], ["-newerm", "f"], ["-regextype", "nope"], ["-fstype"], ["-limit", "0"], ["-mindepth", "-1"], ["-since", "x"], ["-flags"], ["-LZ"], ["-ZL"], ["-exclude", "-print"], ["-xtype", ""], ["-links", ""], ["-files0-from", "f"], ["-files0-from", "f/c/x"], ["-files0-from", ""]]
def bads(job):
    line, = job
    srv = vc.wstate()["srv"]; out = new(); out["states"] = 1
    # units: positions where a new primary may start
    units = []; i = 0
    ARITY = {"-name": 1, "-fprint": 1, "-type": 1, "-size": 1, "-newer": 1, "-printf": 1, "-maxdepth": 1, "-S": 1}
    while i < len(line):
        if line[i] in ("-exec", "-execdir"):
            j = i
            while line[j] not in (";", "+"): j += 1
            units.append(line[i:j + 1]); i = j + 1
        else:
            n = 1 + ARITY.get(line[i], 0); units.append(line[i:i + n]); i += n
    flat = lambda us: [w for x in us for w in x]
    cases = []
    for k in range(len(units) + 1):
        for b in BAD:
            if b == ["-D"]: continue
            rest = flat(units[k:])
            if len(b) == 1 and b[0] in ("-fstype", "-flags"):
                if rest: continue        # a missing argument
            if b[0] == "-exec" and b[-1] != ";":
                if ";" in rest or "+" in rest: continue
            # the last one wins: an overridden list is never read
            cases.append(flat(units[:k]) + b + rest)
        # stray operators
        p = units[k - 1][0] if k else None; nx = units[k][0] if k < len(units) else None
        started = any(x[0] not in ("f", "-L", "-S") for x in units[:k])
        for op in ("-o", "-or", "-a", "-and", ",", ")", "(", "!", "-not"):
            if op == ")" and not started: continue
            if op == "," and not started: continue
            bad = False
            if op in ("(", ")"): bad = True
            elif op in ("!", "-not"): bad = nx in (None, "-o", ",", ")")
            else: bad = nx in (None, "-o", ",", ")", "-a") or p in ("-o", "(", ",", "!")
            if bad: cases.append(flat(units[:k]) + [op] + rest)
    # truncations inside a unit
    for k, x in enumerate(units):
        for j in range(1, len(x)):
            if x[0] in ("-exec", "-execdir") or j < len(x): cases.append(flat(units[:k]) + x[:j])
        if x[0] in ("(", "!", "-o", ","): cases.append(flat(units[:k + 1]))
        # an argument with nothing left to close it
        if x[0] == "(": cases += [flat(units[:m]) for m in range(k + 1, len(units)) if [")"] not in units[:m]]
    for c in cases:
        if c == line: continue
        tidy()
        before = snap()
        rejected(out, srv, c, "w%d" % os.getpid())
        if snap() != before: out["violations"].append(("a rejected command line changed files: bfs %s" % " ".join(c), "%r -> %r" % (before, snap())))
        if len(out["violations"]) > 3: break
    return out
def wdir(): return os.path.join(CWD, "w%d" % os.getpid())
def tidy():
    d = wdir()
    if not os.path.exists(d + "/f/b/x"):
        os.makedirs(d + "/f/b", exist_ok=True); open(d + "/f/b/x", "w"); open(d + "/f/c", "w")
def snap(): return sorted(os.path.join(a, x) for a, b, c in os.walk(wdir()) for x in b + c)

def known(name, names):
    """whether a word is a valid beginning of a primary or a group of flags"""
    if name in names: return True
    if name[:2] in ("-O", "-S", "-D", "-j") or name.startswith("-newer"): return True
    if not name.startswith("-") or name in ("-", "--"): return True      # a path
    w = name[1:]
    for i, c in enumerate(w):
        if c in "OSDj": return bool(re.search("[A-Z]", w[:i + 1]))
        if c == "f":
            if i < len(w) - 1: return False
        elif c not in "EHLPXdsx": return False
    return bool(re.search("[A-Z]", w))

def typos(job):
    name, names = job
    srv = vc.wstate()["srv"]; out = new(); out["states"] = 1
    w = set()
    cs = "abcdefghijklmnopqrstuvwxyzEHLPXSODj0_-" if not THOROUGH else "".join(map(chr, range(33, 127)))
    for i in range(1, len(name) + 1):
        for c in cs:
            w.add(name[:i] + c + name[i:])
            if i < len(name): w.add(name[:i] + c + name[i + 1:])
        if i < len(name): w.add(name[:i] + name[i + 1:])
        if i < len(name) - 1: w.add(name[:i] + name[i + 1] + name[i] + name[i + 2:])
    w = sorted(x for x in w if not known(x, names))
    cmds = [a for x in w for a in (["f", x, "1"], ["f", "-type", "f", "-o", x])]
    for i in range(0, len(cmds), 400):
        part = cmds[i:i + 400]
        for a, r in zip(part, srv.batch(part, CWD, opts=OPT)):
            out["evals"] += 1; out["events"] += 1; out["distinct"] += 1
            if judge_rejected(r, False):
                r = srv.run(a, CWD, opts=OPT)
                bad = judge_rejected(r)
                if bad: out["violations"].append(("unknown argument %s: bfs %s" % (bad, " ".join(a)), r.brief()))
    # asked at a terminal, the answer decides
    for x in w[:: max(1, len(w) // 6)]:
        r = srv.run(["f", x, "1"], CWD, opts=OPT + ["tty 7", "stdin n\n"])
        out["evals"] += 1
        bad = judge_rejected(r)
        if bad: out["violations"].append(("unknown argument %s after answering no: bfs f %s 1" % (bad, x), r.brief()))
    return out

def work(j): return {"i": inter, "g": groups, "f": files0, "b": bads, "t": typos}[j[0]](j[1:])

def main(chk):
    global BFSX, CWD
    b = vc.Build(cflags="-g -O2"); BFSX = b.bfsx()
    CWD = os.path.realpath(vc.ramscratch("order"))
    c = os.fsencode(CWD)
    deep = ('d', {b"a": ('d', {b"b": F, b"c": ('d', {b"b": F})}), b"b": F, b".h": ('d', {b"b": F}), b"z": ('d', {})})
    model.make(c, b"q", deep); model.make(c, b"r", ('d', {b"b": F, b"c": F, b"a": ('d', {b"b": F})})); model.make(c, b"q2", ('d', {b"x": F}))
    model.make(c, b"f", ('d', {b"b": ('d', {b"x": F}), b"c": F}))
    os.symlink("q", CWD + "/l"); os.symlink("../r", CWD + "/q/lr"); os.symlink("nowhere", CWD + "/r/broken")
    os.link(CWD + "/r/b", CWD + "/r/b2")
    for rs in ODDROOTS:
        for x, in rs:
            if not os.path.lexists(CWD + "/" + x): model.make(c, x.encode(), ('d', {b"b": F, b"a": ('d', {b"c": F})}))
    n = CWD + "/n"; os.mkdir(n)
    for x in ("a", "-", "aa", "-a", "(", ")"): open(n + "/" + x, "w")
    os.mkdir(n + "/b"); open(n + "/b/a", "w"); os.mkdir(n + "/!"); open(n + "/!/a", "w"); open(n + "/a\n", "w")
    open(CWD + "/other", "wb").write(b"aa\0b\0")
    jobs = []
    for i, e in enumerate(EXPRS):
        for rs in ROOTSETS:
            for m in MOV: jobs.append(("i", e, [m], rs))
            if len(e) <= (8 if THOROUGH else 3):
                for m, m2 in itertools.permutations(MOV, 2):
                    if m[0] == "-f" or rs is ROOTSETS[1] and not THOROUGH and KIND.get(m[0]) != KIND.get(m2[0], 0): continue
                    if "-j3" in m + m2: continue
                    jobs.append(("i", e, [m, m2], rs))
    for e in EXPRS:
        for rs in ODDROOTS:
            for m in MOV:
                if len(e) <= 3 or m[0] in ("-L", "-S", "-f", "-maxdepth", "-depth", "--", "-d") or THOROUGH: jobs.append(("i", e, [m], rs))
    # walks in several threads are only ordered with -s
    jobs = [j for j in jobs if not any(m[0] == "-j3" for m in j[2]) or j[1][0][0] in ("-type", "-name")]
    jobs = [(j[0], j[1], [m for m in j[2]] + ([["-s"]] if any(m[0] == "-j3" for m in j[2]) else []), j[3]) for j in jobs]
    for k in range(1, 4 if not THOROUGH else 5):
        for l in itertools.product("LHPEXsxd", repeat=k): jobs.append(("g", l))
    al = [b"a", b"b", b"\0", b"/", b"-", b"!", b"(", b"\n"]
    L = 4 if not THOROUGH else 5
    cont = sorted({b"".join(t) for k in range(L + 1) for t in itertools.product(al, repeat=k)})
    cont += [b"a\0" * k for k in (7, 8, 9, 100, 5000)] + [b"a/" * 2000 + b"\0a\0", b"/" * 300 + b"\0a\0"]
    jobs += [("f", [x for x in cont[i:i + 40]], 0) for i in range(0, len(cont), 40)]
    for v in VALID: jobs.append(("b", v))
    names = TABLE
    jobs += [("t", x, names) for x in sorted(names) if x not in ("-D", "-O", "-S", "-j", "-a", "-o")]
    vc.parallel(jobs, work, chk, winit)

TABLE = set("-Bmin -Bnewer -Bsince -Btime -D -E -H -L -O -P -S -X -a -acl -amin -and -anewer -asince -atime -capable -cmin -cnewer -color -context -csince -ctime -d -daystart -delete -depth -empty -exclude -exec -execdir -executable -exit -f -false -files0-from -flags -fls -follow -fprint -fprint0 -fprintf -fstype -gid -group -help -hidden -ignore_readdir_race -ilname -iname -inum -ipath -iregex -iwholename -j -limit -links -lname -ls -maxdepth -mindepth -mmin -mnewer -mount -msince -mtime -name -newer -nocolor -noerror -nogroup -nohidden -noignore_readdir_race -noleaf -not -nouser -nowarn -o -ok -okdir -or -path -perm -print -print0 -printf -printx -prune -quit -readable -regex -regextype -rm -s -samefile -since -size -sparse -status -true -type -uid -unique -used -user -version -warn -wholename -writable -x -xattr -xattrname -xdev -xtype --help --version".split())

if __name__ == "__main__":
    vc.main("C22", "model_checking", "all interleavings of up to two of 30 flags and options and two roots with ten expressions (and of one with six pairs of roots that look like something else), compared with the traditional order; all groups of up to three flag letters x tails; all -files0-from lists up to four bytes over an alphabet of eight, from a file and from standard input, at every position, last one wins; 40 malformed pieces, stray operators and truncations at every position of lines that delete and run commands; every one-edit misspelling of every primary", main,
            ["-daystart, -regextype, -E and -color affect what follows them, and -newer/-samefile follow links only after -L/-H/-follow, as in find", "flags directly after ! or -exclude are their operand"])
