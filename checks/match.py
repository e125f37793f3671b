#!/usr/bin/env python3
"""C08: every pattern / regular expression up to a bound, against every name up to a bound, compared with the language the pattern denotes."""
import sys, os, itertools, re, ctypes, functools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vc

THOROUGH = vc.TIER == "thorough"

# ---------------------------------------------------------------- shell patterns
class Undefined(Exception): pass

def bracket(p, i, fold):
    """p[i] == '[' -> (set of characters, negated, next index), or None when it is an ordinary '['."""
    j = i + 1; neg = False
    if j < len(p) and p[j] == "!": neg = True; j += 1
    elif j < len(p) and p[j] == "^": raise Undefined
    items = []; first = True
    while True:
        if j >= len(p):
            if "-" in p[i:]: raise Undefined  # libc gives up on an unfinished range
            return None
        c = p[j]
        if c == "]" and not first: break
        first = False
        if c == "[" and j + 1 < len(p) and p[j + 1] in ":.=":
            if p[j + 1] != ":": raise Undefined
            k = p.find(":]", j + 2)
            if k < 0: raise Undefined
            cls = {"alpha": str.isalpha, "digit": str.isdigit, "upper": str.isupper, "lower": str.islower, "punct": lambda c: 32 < ord(c) < 127 and not c.isalnum()}.get(p[j + 2:k])
            if not cls: raise Undefined
            if fold and p[j + 2:k] in ("upper", "lower"): raise Undefined
            items.append(("cls", cls)); j = k + 2
            if j < len(p) and p[j] == "-" and j + 1 < len(p) and p[j + 1] != "]": raise Undefined
            continue
        if c == "\\":
            j += 1
            if j >= len(p): return None
            c = p[j]
        j += 1
        if j + 1 < len(p) and p[j] == "-" and p[j + 1] != "]":
            j += 1; e = p[j]
            if e == "\\":
                j += 1
                if j >= len(p): return None
                e = p[j]
            elif e == "[": raise Undefined
            j += 1
            if ord(c) > ord(e) or ord(e) > 127: raise Undefined  # undefined by POSIX
            if fold and (c.isalpha() or e.isalpha()) and not (c.islower() and e.islower() or c.isupper() and e.isupper()): raise Undefined
            if fold and not (c.isalpha() and e.isalpha()) and ord(c) <= ord("Z") and ord(e) >= ord("A"): raise Undefined
            if j < len(p) and p[j] == "-" and j + 1 < len(p) and p[j + 1] != "]": raise Undefined
            items.append(("rng", c, e))
        else: items.append(("chr", c))
    def has(ch):
        for it in items:
            if it[0] == "chr" and (ch == it[1] or fold and ch.lower() == it[1].lower()): return True
            if it[0] == "rng" and (it[1] <= ch <= it[2] or fold and (it[1] <= ch.lower() <= it[2] or it[1] <= ch.upper() <= it[2])): return True
            if it[0] == "cls" and it[1](ch): return True
        return False
    return has, neg, j + 1

def compile_glob(p, fold):
    """-> list of '*' or predicates, or None if nothing matches"""
    out = []; i = 0
    while i < len(p):
        c = p[i]
        if c == "*":
            out.append("*"); i += 1
        elif c == "?": out.append(lambda ch: True); i += 1
        elif c == "[":
            b = bracket(p, i, fold)
            if b is None:
                out.append(lambda ch: ch == "["); i += 1
            else:
                has, neg, i = b
                out.append((lambda h: lambda ch: not h(ch))(has) if neg else has)
        else:
            if c == "\\":
                if i + 1 == len(p): return None
                i += 1; c = p[i]
            i += 1
            out.append((lambda x: lambda ch: ch.lower() == x.lower())(c) if fold else (lambda x: lambda ch: ch == x)(c))
    return out

def glob(prog, s):
    if prog is None: return False
    cur = {0}
    def close(st):
        st = set(st)
        for i in sorted(st):
            while i < len(prog) and prog[i] == "*": i += 1; st.add(i)
        return st
    cur = close(cur)
    for ch in s:
        nxt = set()
        for i in cur:
            if i < len(prog):
                if prog[i] == "*": nxt.add(i)
                elif prog[i](ch): nxt.add(i + 1)
        cur = close(nxt)
        if not cur: return False
    return len(prog) in cur

def names1():
    """File names (no '/')."""
    big = "abAB.-]![\\*?"
    out = list(big) + ["".join(t) for t in itertools.product(big, repeat=2)]
    out += ["".join(t) for t in itertools.product("aB.*\\[", repeat=3)]
    return [n for n in out if n not in (".", "..")]
def strings_l():
    """Link targets: '/' too."""
    big = "abA./]!\\*"
    return [x for x in list(big) + ["".join(t) for t in itertools.product(big, repeat=2)] + ["".join(t) for t in itertools.product("a/.", repeat=3)]]
UNAMES = ["é", "É", "a", "éa", "aÉ", "Éé", "ß", "K", "k", "K", "日", "日a", "ǅ", "ǆ", "Σ", "σ"]
UALPHA = ["é", "É", "a", "K", "*", "?", "[", "]", "!", "\\"]

def patterns(alpha, n, full=None):
    for k in range(0, n + 1):
        for t in itertools.product(alpha, repeat=k): yield "".join(t)

PALPHA = "aB*?[]!-\\/."
FIXED = ["[[:alpha:]]", "[[:digit:]]*", "[![:alpha:]]", "[[:upper:]]?", "[[:punct:]]", "[a-b]", "[!a-b]", "[]a]", "[!]a]", "[a-]", "[-a]", "[a\\]]", "[\\]]", "[\\-]", "[a\\-b]", "*[a-b]*", "[a-bA]?", "[[]", "[[a]]", "a[", "[a", "*[", "\\[a]", "[a]\\", "\\\\", "\\\\\\", "\\\\\\\\", "a\\\\", "*\\\\", "\\*\\*", "[*]", "[?]", "[\\\\]",
         "a*b*", "*a*b*a*", "**", "?*?", "***a", "*?a", "[!a]*", "*[!a]", "[!\\\\]", "*.*", ".*", "?.", "[.]*", "*/*", "a/b", "?/?", "[/]", "*[/]*", "[!/]*", "a[/]b"]

def tests():
    return {"-name": (NAMES, False), "-iname": (NAMES, True), "-lname": (LINKS, False), "-ilname": (LINKS, True), "-path": (PATHS, False), "-ipath": (PATHS, True), "-wholename": (PATHS, False), "-iwholename": (PATHS, True)}

def winit(st): st["srv"] = vc.Server(BFSX)

def bytewise(p, fold, strs):
    """libc may also match byte by byte in a multibyte locale."""
    low = (lambda x: "".join(c.lower() if c < "\x80" else c for c in x)) if fold else str
    try: prog = compile_glob(low(p.encode().decode("latin-1")), False)
    except Undefined: return None
    return frozenset(s for s in strs if glob(prog, low(s.encode().decode("latin-1"))))

def expect(p, fold, strs):
    try: prog = compile_glob(p, fold)
    except Undefined: return None
    return frozenset(s for s in strs if glob(prog, s))

def run(test, pats, strs, root, extra=(), env=None, flags=(), opts=(), sub=""):
    """Which strings each pattern accepted, from one run of bfs."""
    srv = vc.wstate()["srv"]
    args = [*flags, *root, *extra]
    for i, p in enumerate(pats):
        if i: args.append(",")
        args += [test, p, "-printf", "%d:%s\\0" % (i, {"-name": "%f", "-iname": "%f", "-lname": "%l", "-ilname": "%l"}.get(test, "%p"))]
    r = srv.run(args, os.path.join(CWD, sub), opts=["timeout 60000", *opts], env=env)
    got = [[] for _ in pats]
    for rec in r.out.split(b"\0")[:-1]:
        i, _, s = rec.decode("utf-8", "surrogateescape").partition(":")
        got[int(i)].append(s)
    return r, got

def globs(job):
    test, pats, utf, flags = job
    out = dict(evals=1, states=0, events=0, distinct=0, violations=[], extra={})
    if utf: strs, fold, root, env = UNAMES, test.startswith("-i"), ["u"], {**vc.BASE_ENV, "LC_ALL": "C.UTF-8"}
    else:
        strs, fold = tests()[test]; env = None
        root = {"name": ["n"], "lname": ["l"]}.get(test.lstrip("-").removeprefix("i"), PROOTS)
    todo = [(p, expect(p, fold, strs)) for p in pats]
    may = {p: (bytewise(p, fold, strs) if utf else frozenset()) for p in pats}
    todo = [(p, e if may[p] is not None else None) for p, e in todo]
    skip = [p for p, e in todo if e is None]
    todo = [(p, e) for p, e in todo if e is not None]
    if skip: out["extra"]["patterns_left_undefined_by_POSIX"] = len(skip)
    if not todo: return out
    r, got = run(test, [p for p, _ in todo], strs, root, extra=["-mindepth", "1"] if root != PROOTS else [], env=env, flags=flags)
    if r.status != 0 or r.sig is not None:
        out["violations"].append(("bfs failed on %s patterns" % test, "%r\n%s" % ([p for p, _ in todo], r.brief()))); return out
    for (p, e), g in zip(todo, got):
        out["states"] += len(strs); out["events"] += len(g)
        if 0 < len(e) < len(strs): out["distinct"] += 1
        if len(set(g)) != len(g) or e - set(g) or set(g) - e - may[p]:
            d = sorted((e - set(g)) | (set(g) - e - may[p]))[:5]
            out["violations"].append(("%s %r: %s" % (test, p, ", ".join("%r %s" % (x, "should match" if x in e else "should not match") for x in d) or "printed twice"), "flags %r, locale %s" % (flags, "C.UTF-8" if utf else "C")))
            if len(out["violations"]) > 3: return out
    return out

# -name of a root: its last component without trailing slashes
ROOTS = ["a", "a/", "a//", "./a", "./a/", "a/b", "a/b/", "a//b", "a//b///", ".", "./", ".//", "..", "../", "a/.", "a/./", "a/..", "a/../", "/", "//", "///", "a/b/..", "./.", "l", "l/", ".h", ".h/"]
def base(p):
    q = p.rstrip("/")
    return "/" if not q else q.rpartition("/")[2]
def roots(job):
    pats, fold, flags = job
    out = dict(evals=0, states=0, events=0, distinct=0, violations=[])
    for rt in ROOTS:
        exp = [(p, expect(p, fold, [base(rt)])) for p in pats]
        exp = [(p, e) for p, e in exp if e is not None]
        r, got = run("-iname" if fold else "-name", [p for p, _ in exp], None, [rt], extra=["-maxdepth", "0"], flags=flags)
        out["evals"] += 1
        if r.status != 0: out["violations"].append(("bfs failed on root %r" % rt, r.brief())); return out
        for (p, e), g in zip(exp, got):
            out["states"] += 1; out["events"] += len(g); out["distinct"] += len(e)
            if len(g) != len(e): out["violations"].append(("-name %r on the root %r: %s" % (p, rt, "should match" if e else "should not match"), r.brief())); return out
    return out

# ---------------------------------------------------------------- regular expressions, as syntax trees
LEAVES = ["a", "b", ".", "[ab]", "[^a]", "/"]
@functools.lru_cache(None)
def trees(n):
    """Nested repetition only to depth 2: beyond that Oniguruma runs into its own limit on backtracking, and bfs says so."""
    if n == 1: return tuple(("c", x) for x in LEAVES)
    out = []
    for t in trees(n - 1):
        for o in "*+?":
            out.append((o, t))
    for k in range(1, n - 1):
        for x in trees(k):
            for y in trees(n - 1 - k):
                if x[0] != "|": out.append(("|", x, y))
                if x[0] != "&": out.append(("&", x, y))
    return tuple(t for t in out if nest(t) <= 2)

def ends(t, s, i):
    """All j such that t matches s[i:j]."""
    k = t[0]
    if k == "c":
        c = t[1]
        if i < len(s):
            ok = {"a": s[i] == "a", "b": s[i] == "b", ".": True, "[ab]": s[i] in "ab", "[^a]": s[i] != "a", "/": s[i] == "/", "A": s[i] == "A"}[c]
            if ok: return {i + 1}
        return set()
    if k == "|": return ends(t[1], s, i) | ends(t[2], s, i)
    if k == "&": return set().union(*(ends(t[2], s, j) for j in ends(t[1], s, i)), set())
    one = ends(t[1], s, i)
    if k == "?": return one | {i}
    res = set(one); todo = list(one)
    while todo:
        j = todo.pop()
        for m in ends(t[1], s, j):
            if m not in res: res.add(m); todo.append(m)
    return res | {i} if k == "*" else res
def fullmatch(t, s): return len(s) in ends(t, s, 0)

def nest(t): return max([0] + [nest(x) for x in t[1:] if isinstance(x, tuple)]) + (t[0] in "*+")
def has(t, ops): return t[0] in ops or any(has(x, ops) for x in t[1:] if isinstance(x, tuple))
def render(t, typ):
    """None if the syntax has no such operator."""
    E = typ in ("posix-extended", "awk", "posix-awk", "gnu-awk", "egrep", "posix-egrep")
    emacs = typ in ("emacs", "findutils-default")
    lp, rp = ("(", ")") if E else ("\\(", "\\)")
    if not E and typ not in ("emacs", "findutils-default", "grep") and has(t, "|+?"): return None
    alt = "|" if E else "\\|"
    rep = {"*": "*", "+": "\\+" if typ == "grep" else "+", "?": "\\?" if typ == "grep" else "?"}
    def r(t, lvl):
        k = t[0]
        if k == "c": return t[1]
        if k == "|": s = r(t[1], 0) + alt + r(t[2], 0); return lp + s + rp if lvl > 0 else s
        if k == "&": s = r(t[1], 1) + r(t[2], 1); return lp + s + rp if lvl > 1 else s
        s = r(t[1], 3) + rep[k]
        return lp + s + rp if lvl > 2 else s
    return r(t, 0)

RTYPES = ("posix-basic", "posix-extended", "awk", "egrep", "emacs", "findutils-default", "grep", "gnu-awk", "sed", "ed")
def regexes(job):
    typ, ts, icase, flags = job
    out = dict(evals=1, states=0, events=0, distinct=0, violations=[])
    rs = [(t, render(t, typ)) for t in ts]; rs = [(t, r) for t, r in rs if r is not None]
    if not rs: return out
    if "-E" in flags: extra = []
    else: extra = ["-regextype", typ]
    up = str.upper if icase == 2 else str
    r, got = run("-iregex" if icase else "-regex", [up(x) for _, x in rs], None, RROOTS, extra=extra, flags=flags, sub="x")
    if r.status != 0 or r.sig is not None:
        out["violations"].append(("bfs failed on %s expressions" % typ, "%r\n%s" % ([x for _, x in rs], r.brief()))); return out
    for (t, x), g in zip(rs, got):
        # '.' and newlines differ between the non-POSIX dialects
        nl = typ in ("emacs", "grep")
        if nl: g = [y for y in g if "\n" not in y]
        e = [s for s in RPATHS if not (nl and "\n" in s) and fullmatch(t, s.lower() if icase else s)]
        out["states"] += len(RPATHS); out["events"] += len(g)
        if 0 < len(e) < len(RPATHS): out["distinct"] += 1
        if sorted(g) != sorted(e):
            d = sorted(set(g) ^ set(e))[:5]
            out["violations"].append(("-regextype %s %s %r: %s" % (typ, "-iregex" if icase else "-regex", up(x), ", ".join("%r %s" % (y, "should match" if y in e else "should not match") for y in d)), r.brief()))
            if len(out["violations"]) > 3: return out
    return out

LENS = [1, 2, 3, 7, 8, 62, 63, 64, 65, 126, 127, 128, 129, 130, 255, 256, 257, 511, 512, 1023, 1024, 2047, 2048, 4094, 4095]
def longlinks(job):
    """Link targets of every length around the buffer sizes, with the size lstat() reports exact, missing or wrong."""
    L, size = job
    srv = vc.wstate()["srv"]; out = dict(evals=0, states=0, events=0, distinct=0, violations=[])
    opts = ["nouring"] + (["attr size=%d t/%d" % (size, L)] if size is not None else [])
    t = ("y" + "x" * (L - 2) + "z")[:L]
    for p, want in ((t, True), (t[:-1] + "?", True), ("*" + t[-1], True), (t[:-1], False), (t + "?", False), (t + "*", True), ("?" * L, True)):
        r = srv.run([*(["-inum", "+0"] if size is not None else []), "t/%d" % L, "-lname", p, "-printf", "%l"], CWD, opts=opts)
        out["evals"] += 1; out["states"] += 1; out["distinct"] += 1
        if r.status != 0 or r.out != (t.encode() if want else b""):
            out["violations"].append(("-lname (or %%l) on a link of length %d whose size is reported as %s" % (L, size), "pattern %r\n%s" % (p, r.brief()))); return out
    return out

NLENS = list(range(1, 41)) + [47, 48, 49, 63, 64, 65, 127, 128, 129, 254, 255]
def variants(L):
    """Strings of length L that differ in case or in one place."""
    b = ("aBc" * 100)[:L]; m = L // 2
    out = [b, b.lower(), b.upper(), b.swapcase()]
    for i in (0, m, L - 1): out += [b[:i] + "x" + b[i + 1:], b[:i] + b[i].swapcase() + b[i + 1:]]
    return list(dict.fromkeys(out))
def longpats(L):
    out = []
    for v in variants(L):
        m = L // 2
        out += [v, v[:-1], v + "a", v[:m] + "?" + v[m + 1:], v[:-1] + "?", "?" + v[1:], "*" + v[1:], v[:-1] + "*", v + "*", "*" + v, v[:m] + "*" + v[m:], v[:m] + "\\" + v[m:], v[:-1] + "[" + v[-1] + "]", v[:m] + "[!x]" + v[m + 1:]]
    return list(dict.fromkeys(out))
def longnames(job):
    """Names, paths and link targets of every length up to a bound, against patterns that differ from them in case or in one place."""
    test, L, loc = job
    out = dict(evals=1, states=0, events=0, distinct=0, violations=[])
    fold = test.startswith("-i"); kind = test.lstrip("-").removeprefix("i")
    near = [k for k in (L - 1, L, L + 1) if k in NLENS]
    names = [v for k in near for v in variants(k)]
    pats = longpats(L); top = "K" if kind == "lname" else "N"
    if kind == "path":
        pats = ["%s/%d/%s" % (top, k, p) for k in near for p in pats]; strs = ["%s/%d/%s" % (top, k, v) for k in near for v in variants(k)]
        if fold: pats += [p.swapcase() for p in pats]
    else: strs = names
    r, got = run(test, pats, strs, ["%s/%d" % (top, k) for k in near], extra=["-mindepth", "1"], env={**vc.BASE_ENV, "LC_ALL": loc})
    if r.status != 0 or r.sig is not None:
        out["violations"].append(("bfs failed on %s patterns of length %d" % (test, L), r.brief())); return out
    for p, g in zip(pats, got):
        e = expect(p, fold, strs)
        out["states"] += len(strs); out["events"] += len(g)
        if 0 < len(e) < len(strs): out["distinct"] += 1
        if sorted(g) != sorted(e):
            d = sorted(set(g) ^ set(e))[:5]
            out["violations"].append(("%s %r: %s" % (test, p, ", ".join("%r %s" % (x, "should match" if x in e else "should not match") for x in d)), "locale %s" % loc))
            if len(out["violations"]) > 3: return out
    return out

def work(j): return {"n": longnames, "l": longlinks, "g": globs, "r": roots, "x": regexes}[j[0]](j[1:])

def validate(chk):
    """The pattern model against libc's own fnmatch(), for every pattern and name used (except where it is known to deviate)."""
    libc = ctypes.CDLL(None); n = bad = 0
    for p in list(patterns(PALPHA, 3)) + FIXED:
        if (len(p) - len(p.rstrip("\\"))) % 2: continue
        e = expect(p, False, NAMES)
        if e is None: continue
        for s in NAMES[::7]:
            n += 1
            if (libc.fnmatch(p.encode(), s.encode(), 0) == 0) != (s in e): bad += 1
    chk.extra["model_validated_against_libc"] = n; chk.extra["model_disagreements_with_libc"] = bad

def chunks(l, n):
    l = list(l)
    return [l[i:i + n] for i in range(0, len(l), n)]

def main(chk):
    global BFSX, CWD, NAMES, LINKS, PATHS, PROOTS, RROOTS, RPATHS
    b = vc.Build(cflags="-g -O1"); BFSX = b.bfsx()
    CWD = vc.ramscratch("match")
    NAMES = names1(); LINKS = strings_l()
    w = lambda *p: os.path.join(CWD, *p)
    os.mkdir(w("n"));
    for n in NAMES: open(w("n", n), "w").close()
    os.mkdir(w("l"))
    for i, n in enumerate(LINKS): os.symlink(n, w("l", "%d" % i))
    os.mkdir(w("u"))
    for n in UNAMES: open(w("u", n), "w").close()
    os.makedirs(w("a", "b")); os.mkdir(w(".h"))
    # paths: roots given as plain names
    PROOTS = ["-f", "p/a", "-f", "p/B", "-f", "p/.c", "-f", "p/-"]
    def fill(d, k):
        os.mkdir(d)
        for n in ("a", "B", ".a", "a.B"): 
            if k: fill(os.path.join(d, n), k - 1)
    os.mkdir(w("p"))
    fill(w("p", "a"), 2); fill(w("p", "B"), 1); fill(w("p", ".c"), 1); fill(w("p", "-"), 0)
    PATHS = []
    for rt in ("a", "B", ".c", "-"):
        for dp, dn, fn in os.walk(w("p", rt)): PATHS.append(os.path.relpath(dp, CWD))
    RPATHS = ["".join(t) for k in (1, 2, 3) for t in itertools.product("ab", repeat=k)] + ["aaaa", "abab", "baab", "A", "aB", "Ab", "BA", "a\n", "\n", "c", "ac", "ca", "acb"]
    os.mkdir(w("x"))
    for n in RPATHS: open(w("x", n), "w").close()
    RPATHS += ["./a", "./b", ".//ab"]
    RROOTS = [y for n in RPATHS for y in ("-f", n)]
    jobs = []
    q = 3 if not THOROUGH else 4
    for c in chunks((p for p in patterns(PALPHA, 4) if len(p) == 4), 60):
        if not THOROUGH: jobs.append(("g", "-name", c, False, ()))
    for t in ("-name", "-iname", "-lname", "-ilname"):
        for c in chunks(list(patterns(PALPHA, q)) + FIXED + (["".join(x) for x in itertools.product("aB*?[]\\", repeat=4)] if not THOROUGH else []), 40): jobs.append(("g", t, c, False, ()))
    for t in ("-path", "-ipath"):
        for pre in ("", "p/", "*/", "p*", "?/a"):
            for c in chunks([pre + x for x in patterns(PALPHA, q)] + [pre + x for x in FIXED], 60): jobs.append(("g", t, c, False, ()))
    for t in ("-wholename", "-iwholename"):
        for c in chunks(["*" + x for x in patterns(PALPHA, 2)] + FIXED, 60): jobs.append(("g", t, c, False, ()))
    for t in ("-name", "-iname"):
        for c in chunks(patterns(UALPHA, q), 60): jobs.append(("g", t, c, True, ()))
    for fl in (("-O0",), ("-O3", "-j1"), ("-L",)):
        for c in chunks(list(patterns("aB*?[]\\", 3)) + FIXED, 60): jobs.append(("g", "-iname" if fl[0] == "-O3" else "-name", c, False, fl))
    for fold in (False, True):
        for c in chunks(list(patterns("aAb.*?/[]", 3)) + FIXED, 200): jobs.append(("r", c, fold, ()))
    N = 5 if THOROUGH else 4
    ts = [t for k in range(1, N + 1) for t in trees(k)]
    chk.extra["regex_trees"] = len(ts)
    for typ in RTYPES:
        for ic in (0, 1, 2):
            if ic and typ not in ("posix-basic", "posix-extended", "findutils-default"): continue
            if not THOROUGH and typ == "posix-extended" and not ic: use = ts + list(trees(N + 1))
            elif typ in ("sed", "ed", "posix-awk", "posix-egrep", "gnu-awk") or ic: use = [t for k in range(1, N) for t in trees(k)]
            else: use = ts
            for c in chunks(use, 60): jobs.append(("x", typ, c, ic, ()))
    for c in chunks([t for k in range(1, N) for t in trees(k)], 60): jobs.append(("x", "posix-extended", c, 0, ("-E",)))
    os.mkdir(w("t"))
    for L in LENS:
        os.symlink(("y" + "x" * (L - 2) + "z")[:L], w("t", "%d" % L))
        for sz in (None, 0, 1, L - 1, L, L + 1): jobs.append(("l", L, sz))
    os.mkdir(w("N")); os.mkdir(w("K"))
    for L in NLENS:
        os.mkdir(w("N", str(L))); os.mkdir(w("K", str(L)))
        for i, v in enumerate(variants(L)):
            open(w("N", str(L), v), "w").close(); os.symlink(v, w("K", str(L), str(i)))
        for t in ("-name", "-iname", "-path", "-ipath", "-lname", "-ilname"):
            for loc in ("C", "C.UTF-8"): jobs.append(("n", t, L, loc))
    validate(chk)
    vc.parallel(jobs, work, chk, winit)

vc.main("C08", "model_checking", "every shell pattern up to the length bound over an alphabet of letters and metacharacters, times every name, link target and path of a complete set; every regular expression up to the size bound (as a syntax tree, rendered in each dialect) times every path of a complete set; every string that matches is recorded by bfs and compared with the language the pattern denotes", main,
        ["C and C.UTF-8 locales", "constructs POSIX leaves undefined are skipped (counted)"])
