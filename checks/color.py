#!/usr/bin/env python3
"""C21: every assignment of colours to type keys over every kind of file, every short sequence of suffixes, every short
LS_COLORS string, when colour is used at all."""
import sys, os, itertools, stat, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vc, model

THOROUGH = vc.TIER == "thorough"
def env(ls=None, bfs=None, **kw):
    e = dict(vc.BASE_ENV, **kw)
    if ls is not None: e["LS_COLORS"] = ls
    if bfs is not None: e["BFS_COLORS"] = bfs
    return e

# ---------------------------------------------------------------- reference reading of LS_COLORS
DEF = {"rs": b"0", "lc": b"\033[", "rc": b"m", "ec": None, "cl": b"\033[K", "no": None, "fi": b"", "mh": None, "ex": b"01;32", "ca": None, "sg": b"30;43", "su": b"37;41", "di": b"01;34", "st": b"37;44", "ow": b"34;42", "tw": b"30;42", "ln": b"01;36", "or": None, "mi": None, "bd": b"01;33", "cd": b"01;33", "do": b"01;35", "pi": b"33", "so": b"01;35"}
class Bad(Exception): pass
CESC = {ord("a"): 7, ord("b"): 8, ord("e"): 27, ord("f"): 12, ord("n"): 10, ord("r"): 13, ord("t"): 9, ord("v"): 11, ord("?"): 127, ord("_"): 32}
HEX = b"0123456789abcdef"
def unesc(s, i, end):
    out = bytearray()
    while i < len(s) and s[i] != end:
        c = s[i]; i += 1
        if c == 92:
            if i >= len(s): raise Bad
            c = s[i]; i += 1
            if c in CESC: c = CESC[c]
            elif 48 <= c <= 55:
                v = c - 48
                while i < len(s) and 48 <= s[i] <= 55: v = v * 8 + s[i] - 48; i += 1
                c = v & 255
            elif c in b"xX":
                v = 0
                while i < len(s) and bytes([s[i]]).lower() in [HEX[k:k + 1] for k in range(16)]: v = v * 16 + HEX.index(bytes([s[i]]).lower()); i += 1
                c = v & 255
        elif c == 94:
            if i >= len(s): raise Bad
            c = 127 if s[i] == 63 else s[i] & 31; i += 1
        out.append(c)
    return bytes(out), (i + 1 if i < len(s) else None)
def read(*vars):
    """-> (keys, [(suffix, value)])"""
    keys = dict(DEF); exts = []
    for s in vars:
        if s is None: continue
        i = 0
        while i is not None:
            while i < len(s) and s[i] == 58: i += 1
            if s[i:i + 1] == b"*":
                k, i = unesc(s, i + 1, 61)
                if i is None: raise Bad
                v, i = unesc(s, i, 58)
                if b"\0" not in k: exts.append((k, v))
            else:
                j = s.find(b"=", i)
                if j < 0: break
                k = s[i:j].decode("latin-1")
                v, i = unesc(s, j + 1, 58)
                if k not in ("rs", "lc", "rc", "ec") and not v.strip(b"0"): v = None
                if k in keys: keys[k] = v
    return keys, exts

def extcolors(exts, name):
    """The colours the suffixes may give a name: a set with one element, or two where overridden entries make the rule ambiguous"""
    res = set()
    for mode in range(2):
        live = []
        for k, v in exts:
            live = [x for x in live if (not x[0].endswith(k) if mode else x[0] != k)]
            live.append((k, v))
        vals = {}
        for k, v in live: vals.setdefault(k.lower(), set()).add(v)
        r = None
        for k, v in reversed(live):
            if name.endswith(k) or (len(vals[k.lower()]) == 1 and name.lower().endswith(k.lower())): r = v; break
        res.add(r)
    return res

# ---------------------------------------------------------------- styles
def styles(b, keys=DEF):
    """Decode coloured output into [(char, style)]; None if sequences do not nest properly."""
    lc, rc = keys["lc"], keys["rc"]; ec = keys["ec"] or lc + keys["rs"] + rc
    out = []; cur = None; i = 0
    while i < len(b):
        if b.startswith(ec, i):
            if cur is None: return None
            cur = None; i += len(ec)
        elif b.startswith(lc, i):
            j = b.index(rc, i + len(lc))
            if cur is not None: return None
            cur = b[i + len(lc):j]; i = j + len(rc)
        else:
            if b[i] == 10 and cur is not None: return None
            out.append((b[i:i + 1], cur)); i += 1
    return out if cur is None else None
def lines(b, keys=DEF):
    s = styles(b, keys)
    if s is None: return None
    out = {}; cur = []
    for c, k in s:
        if c == b"\n": out[b"".join(x for x, _ in cur)] = [y for _, y in cur]; cur = []
        else: cur.append((c, k))
    return out

class F:
    def __init__(self, p, attr):
        self.p = p; s = os.lstat(os.path.join(CWD, p)); self.l = [s.st_mode, s.st_nlink]
        self.lnk = stat.S_ISLNK(s.st_mode); self.t = None
        if self.lnk:
            try: t = os.stat(os.path.join(CWD, p)); self.t = [t.st_mode, t.st_nlink]
            except OSError: pass
        for x in (self.l, self.t):
            if p in attr and x is not None:
                x[0] = stat.S_IFMT(x[0]) | attr[p].get("perm", x[0] & 0o7777); x[1] = attr[p].get("nlink", x[1])

def typecolor(keys, exts, mode, nlink, name, broken=False, cap=False):
    """Set of acceptable colours"""
    t = stat.S_IFMT(mode)
    one = lambda k: {keys[k] if keys[k] != b"" else keys["no"]}
    if t == stat.S_IFREG:
        if keys["su"] and mode & 0o4000: return one("su")
        if keys["sg"] and mode & 0o2000: return one("sg")
        if keys["ca"] and cap: return one("ca")
        if keys["ex"] and mode & 0o111: return one("ex")
        if keys["mh"] and nlink > 1: return one("mh")
        return {(keys["fi"] if c is None else c) if (keys["fi"] if c is None else c) != b"" else keys["no"] for c in extcolors(exts, name)}
    if t == stat.S_IFDIR:
        if keys["tw"] and mode & 0o1002 == 0o1002: return one("tw")
        if keys["ow"] and mode & 2: return one("ow")
        if keys["st"] and mode & 0o1000: return one("st")
        return one("di")
    if t == stat.S_IFLNK:
        if keys["or"] and broken: return one("or")
        return {keys["no"]} if keys["ln"] == b"target" else one("ln")
    return one({stat.S_IFIFO: "pi", stat.S_IFSOCK: "so", stat.S_IFCHR: "cd", stat.S_IFBLK: "bd"}[t])

def filecolor(keys, exts, f, name, follow):
    m = f.l
    if f.lnk and (follow or keys["ln"] == b"target") and f.t is not None: m = f.t
    return typecolor(keys, exts, m[0], m[1], name, f.lnk and f.t is None, CAPS.get(f.p, "E")[0] != "E")

def winit(st): st["srv"] = vc.Server(BFSX)

ATTR = {}
CAPS = {}
def attropts(): return ["xattr %d security.capability %s" % (os.stat(os.path.join(CWD, p)).st_ino, v) for p, v in CAPS.items()] + ["attr " + ",".join("%s=%d" % kv for kv in a.items()) + " " + p for p, a in ATTR.items()]

def types(job):
    """One assignment of values to keys; every file."""
    ls, bfsc, flag, root, how = job
    srv = vc.wstate()["srv"]
    out = dict(evals=0, states=1, events=0, distinct=0, violations=[])
    keys, exts = read(ls, bfsc)
    pr = {"print": ["-print"], "f": ["-printf", "%f\\n"], "P": ["-mindepth", "1", "-printf", "%P\\n"], "p": ["-printf", "%p\\n"], "h": ["-mindepth", "1", "-printf", "%h/%f\\n"]}[how]
    args = [flag, root, "-color", *pr]
    r = srv.run(args, CWD, env=env(ls, bfsc), opts=["nouring", *attropts()])
    plain = srv.run([flag, root, "-nocolor", *pr], CWD, env=env(ls, bfsc), opts=["nouring", *attropts()])
    out["evals"] = 2
    bad = None
    got = lines(r.out, keys)
    if r.status or r.sig is not None or r.err or r.timeout: bad = "exit status %r, %r%s" % (r.status, r.err, ", hang" * bool(r.timeout))
    elif b"\033" in plain.out: bad = "an escape sequence with -nocolor"
    elif got is None: bad = "colours are not reset: %r" % r.out[:300]
    elif sorted(b"\n".join(got).split(b"\n")) != sorted(set(plain.out.split(b"\n")[:-1])): bad = "the text differs from -nocolor"
    else:
        for f in FILES[root]:
            i = f.p.rfind("/") + 1
            dirs, name = f.p[:i].encode(), f.p[i:].encode()
            if how in "fP" or how == "P":
                if how == "P" and f.p == root: continue
                dirs = dirs[len(root) + 1:] if how == "P" else b""
            elif how == "h" and f.p == root: continue
            g = got.get(dirs + name)
            out["events"] += 1; out["distinct"] += 1
            if g is None: bad = "%s is missing" % f.p; break
            d = keys["di"]
            want = filecolor(keys, exts, f, name, flag == "-L")
            gd, gn = g[:len(dirs)], g[len(dirs):]
            if how == "h": gd = gd[:-1]
            if gd != [d] * len(gd): bad = "the directories of %s are coloured %r instead of %r" % (f.p, gd, d); break
            if len(set(gn)) != 1 or gn[0] not in want: bad = "%s is coloured %r instead of %r" % (f.p, gn, want); break
    if bad: out["violations"].append(("%s: LS_COLORS=%r BFS_COLORS=%r bfs %s" % (bad, ls, bfsc, " ".join(args)), r.brief()))
    return out

def suffixes(job):
    """Sequences of *suffix=value; every name."""
    seqs, = job
    srv = vc.wstate()["srv"]
    out = dict(evals=0, states=0, events=0, distinct=0, violations=[])
    for ls, bfsc in seqs:
        keys, exts = read(ls, bfsc)
        r = srv.run(["x", "-mindepth", "1", "-color", "-printf", "%f\\n"], CWD, env=env(ls, bfsc), opts=["nouring"])
        out["evals"] += 1; out["states"] += 1; out["distinct"] += 1
        got = lines(r.out, keys); bad = None
        if r.status or r.sig is not None or r.timeout: bad = "exit status %r%s" % (r.status, ", hang" * bool(r.timeout))
        elif got is None or sorted(got) != sorted(NAMES): bad = "wrong text: %r" % r.out[:200]
        else:
            for n in NAMES:
                out["events"] += 1
                w = typecolor(keys, exts, stat.S_IFREG | 0o644, 1, n)
                if len(set(got[n])) != 1 or got[n][0] not in w: bad = "%s is coloured %r instead of %r" % (n.decode(), got[n][0], w); break
        if bad:
            out["violations"].append(("%s: LS_COLORS=%r BFS_COLORS=%r" % (bad, ls, bfsc), r.brief()))
            if len(out["violations"]) > 3: break
    return out

def strings(job):
    """LS_COLORS strings of every shape; one file."""
    strs, = job
    srv = vc.wstate()["srv"]
    out = dict(evals=0, states=0, events=0, distinct=0, violations=[])
    for s in strs:
        try: keys, exts = read(s)
        except Bad: keys = None
        r = srv.run(["x/q", "-color", "-printf", "%f\\n"], CWD, env=env(s), opts=["nouring"])
        out["evals"] += 1; out["states"] += 1; out["events"] += 1; out["distinct"] += 1
        if keys is None:
            ok = r.status not in (0, None) and not r.out and r.err
            want = "an error"
        else:
            want = set()
            for c in typecolor(keys, exts, stat.S_IFREG | 0o644, 1, b"q"):
                ec = keys["ec"] if keys["ec"] is not None else keys["lc"] + keys["rs"] + keys["rc"]
                want.add((b"q" if c is None else keys["lc"] + c + keys["rc"] + b"q" + ec) + b"\n")
            ok = r.status == 0 and r.out in want
        if not ok:
            out["violations"].append(("%r instead of %r (exit status %r): LS_COLORS=%r" % (r.out, want, r.status, s), r.brief()))
            if len(out["violations"]) > 3: break
    return out

def targets(job):
    """The colours of link targets."""
    ls, = job
    srv = vc.wstate()["srv"]
    out = dict(evals=1, states=1, events=0, distinct=0, violations=[])
    keys, exts = read(ls)
    r = srv.run(["t", "-type", "l", "-color", "-printf", "%P|%l\\n"], CWD, env=env(ls), opts=["nouring"])
    l2 = srv.run(["t", "-type", "l", "-color", "-ls"], CWD, env=env(ls), opts=["nouring"])
    # the links given as roots
    l3 = srv.run([*(b"t/" + n for n, _, _ in TARGETS), "-type", "l", "-color", "-ls"], CWD, env=env(ls), opts=["nouring"])
    got = lines(r.out, keys); gl = lines(l2.out, keys); g3 = lines(l3.out, keys); bad = None
    err = keys["mi"] or keys["or"]
    if r.timeout or l2.timeout or l3.timeout: bad = "hang"
    elif r.status or got is None or gl is None or g3 is None: bad = "exit status %r or colours not reset" % r.status
    else:
        for n, tgt, spans in TARGETS:
            want = []
            for txt, what in spans:
                if what == "di": c = {keys["di"]}
                elif what == "err": c = {err}
                else: c = typecolor(keys, exts, what[0], what[1], txt)
                want += [c] * len(txt)
            out["events"] += 1; out["distinct"] += 1
            k = n + b"|" + tgt
            g = got.get(k)
            h = next((v for t, v in gl.items() if t.endswith(b" t/" + n + b" -> " + tgt)), None)
            h3 = next((v for t, v in g3.items() if t.endswith(b" t/" + n + b" -> " + tgt)), None)
            if g is None or h is None or h3 is None: bad = "%r is missing" % k; break
            for x in (g[-len(tgt):], h[-len(tgt):], h3[-len(tgt):]):
                if not all(a in b for a, b in zip(x, want)): bad = "the target %s is coloured %r instead of %r" % (tgt.decode(), x, want); break
            if bad: break
    if bad: out["violations"].append(("%s: LS_COLORS=%r" % (bad, ls), r.brief() + l2.brief()))
    return out

def when(job):
    """When colour is used at all."""
    tty, nc, opt = job
    srv = vc.wstate()["srv"]
    out = dict(evals=1, states=1, events=1, distinct=1, violations=[])
    e = env("fi=31:di=32:*b=33")
    if nc is not None: e["NO_COLOR"] = nc
    args = ["r", "nope", *opt]
    r = srv.run(args, CWD, env=e, opts=["nouring", "tty %d" % tty])
    flag = next((o for o in reversed(opt) if o in ("-color", "-nocolor")), None)
    for fd, data, what in ((1, r.out, "output"), (2, r.err, "diagnostic")):
        want = flag == "-color" or (flag is None and bool(tty >> fd & 1) and not nc)
        if fd == 1 and opt[-1:] in (["-print0"], ["-printx"]): want = False
        if (b"\033[" in data) != want and data: out["violations"].append(("%s in the %s: bfs %s, terminals %d, NO_COLOR=%r" % ("no colour" if want else "colour", what, " ".join(args), tty, nc), r.brief()))
        if styles(data) is None and fd == 1: out["violations"].append(("colours not reset in the %s: bfs %s" % (what, " ".join(args)), r.brief()))
    return out

def work(j): return {"t": types, "s": suffixes, "p": strings, "l": targets, "w": when}[j[0]](j[1:])

def main(chk):
    global BFSX, CWD, FILES, NAMES, TARGETS
    b = vc.Build(cflags="-g -O1"); BFSX = b.bfsx()
    CWD = os.path.realpath(vc.ramscratch("co")); C = os.fsencode(CWD)
    R = ("f", 0)
    # regular files of every relevant mode
    reg = {}
    for i, (m, n) in enumerate(itertools.product([0o4000, 0o2000, 0o6000, 0o4111, 0o2010, 0, 0o100, 0o10, 1, 0o644, 0o666, 0o1000], [1, 2])):
        nm = "g%d%s" % (i, (".ab", "")[i % 2] if i < 12 else ("", ".ab")[(i // 2) % 2])
        reg[nm.encode()] = R; ATTR["r/" + nm] = dict(perm=m, nlink=n)
    for i, m in enumerate((0, 1, 0o10, 0o644, 0o4755)):
        for n in (1, 2):
            nm = "k%d%d.ab" % (i, n); reg[nm.encode()] = R; ATTR["r/" + nm] = dict(perm=m, nlink=n)
    # the same with capabilities (and one lookup that fails, which is none)
    for i, (m, n) in enumerate(itertools.product([0o4000, 0o2000, 0o4111, 0, 0o100, 0o644], [1, 2])):
        for e in ("", ".ab"):
            nm = "c%d%s" % (i, e); reg[nm.encode()] = R; ATTR["r/" + nm] = dict(perm=m, nlink=n); CAPS["r/" + nm] = "E5" if i == 11 else "0100000200200000000000000000000000000000"
    model.make(C, b"r", ("d", reg))
    dirs = {}
    for i, m in enumerate((0o755, 0o1755, 0o757, 0o1757, 0o777, 0o1777, 0o700, 0o4755, 0o2755, 0o1000, 0o2)):
        nm = "d%d" % i; dirs[nm.encode()] = ("d", {b"e": ("d", {b"f": R})}); ATTR["d/" + nm] = dict(perm=m)
    model.make(C, b"d", ("d", dirs))
    model.make(C, b"l", ("d", {b"f.ab": R, b"x": ("f", 0), b"dir": ("d", {}), b"lf": ("l", b"f.ab"), b"lfab.ab": ("l", b"x"), b"ld": ("l", b"dir"), b"lb": ("l", b"nope"), b"lb.ab": ("l", b"nope"), b"ll": ("l", b"lf"), b"lbb": ("l", b"lb"), b"ln": ("l", b"x/y"), b"p": ("p",), b"p.ab": ("p",), b"s": ("s",), b"lp": ("l", b"p"), b"ls": ("l", b"s")}))
    os.chmod(os.path.join(CWD, "l/x"), 0o755)
    def walk(root):
        out = [root]
        for d, ds, fs in os.walk(os.path.join(CWD, root)):
            for n in ds + fs: out.append(os.path.relpath(os.path.join(d, n), CWD))
        return [F(p, ATTR) for p in out]
    FILES = {r: walk(r) for r in "rdl"}
    jobs = []
    def assign(keys, vals=("", "0", None), ln=None):
        for t in itertools.product(*[(None, b"%s=0" % k, b"%s=%d" % (k, 60 + i)) if k != b"ln" else (None, b"ln=0", b"ln=59", b"ln=target") for i, k in enumerate(keys)]):
            yield [x for x in t if x is not None]
    n = 0
    HOW = ["print", "f", "p", "h", "P"]
    for t in assign([b"su", b"sg", b"ex", b"mh", b"fi", b"no"]):
        for e in ([], [b"*.ab=99"]):
            n += 1; jobs.append(("t", b":".join(t + e), None, "-P", "r", HOW[n % 5]))
    for t in assign([b"ca", b"su", b"sg", b"ex", b"mh"]):
        for e in ([], [b"*.ab=99"]):
            for fl in ("-P", "-L"): n += 1; jobs.append(("t", b":".join(t + e), None, fl, "r", HOW[n % 5]))
    for t in assign([b"tw", b"ow", b"st", b"di", b"no"]):
        n += 1; jobs.append(("t", b":".join(t), None, "-P", "d", HOW[n % 5]))
        jobs.append(("t", b":".join(t), None, "-L", "d", HOW[(n + 1) % 5]))
    for t in assign([b"ln", b"or", b"mi", b"di", b"no"]):
        for fl in ("-P", "-L"):
            for x in ([], [b"*.ab=99", b"ex=98"]): n += 1; jobs.append(("t", b":".join(t + x), None, fl, "l", HOW[n % 5]))
    for t in assign([b"pi", b"so", b"ex", b"fi"]): n += 1; jobs.append(("t", b":".join(t), None, "-L", "l", HOW[n % 5]))
    # BFS_COLORS after LS_COLORS
    for a in (None, b"", b"di=5", b"di=0", b"fi=7:di=8", b"*.ab=4"):
        for c in (None, b"", b"di=6", b"di=0", b"di=9:fi=0", b"*.ab=3", b"*b=2"):
            for root in "rdl":
                for h in HOW: jobs.append(("t", a, c, "-P", root, h))
    # lc, rc, ec, rs
    for t in itertools.product((None, b"lc=<", b"lc=\\e]"), (None, b"rc=>", b"rc=~~"), (None, b"ec=^[", b"ec=<>"), (None, b"rs=", b"rs=7", b"rs=0")):
        for x in (b"fi=31", b"fi=31:di=0", b"fi=0"):
            s = b":".join([y for y in t if y] + [x])
            jobs.append(("p", [s, x + b":" + s]))
    # suffixes
    NAMES = [b"ab", b"AB", b"aB", b"b", b"B", b"x.ab", b"x.AB", b"x.Ab", b"x.aB", b"x.c.ab", b"x.C.AB", b"x.c.AB", b"x.C.aB", b".ab", b"xc.ab", b"a", b"c.ab", b"q"]
    model.make(C, b"x", ("d", {k: R for k in NAMES}))
    S = [b"b", b"ab", b"AB", b"Ab", b".ab", b".AB", b"c.ab", b"C.AB"]
    ent = [b"*%s=%d" % (s, v) for s in S for v in (1, 2)] + [b"*=3", b"*ab=", b"*.ab=00"]
    seqs = [(b":".join(t), None) for k in range(0, 4) for t in itertools.product(ent, repeat=k)]
    core = [b"*%s=%d" % (s, v) for s in (b"ab", b"AB", b"Ab", b".ab", b"b") for v in (1, 2)]
    seqs += [(b":".join(t), None) for t in itertools.product(core, repeat=4)]
    if THOROUGH: seqs += [(b":".join(t), None) for t in itertools.product(ent, repeat=4)] + [(b":".join(t), None) for t in itertools.product(core, repeat=5)]
    seqs += [(b":".join(t[:i]), b":".join(t[i:])) for t in itertools.product(ent, repeat=2) for i in range(3)]
    seqs += [(x + b"::" + y + b":", None) for x in ent for y in ent]
    seqs += [(b"*" + b"z" * n + b"ab=1:*" + k + b"=2", None) for n in (254, 255, 256, 300) for k in (b"ab", b"AB", b"q", b"zb")]
    seqs = list(dict.fromkeys(seqs)); chk.extra["suffix_sequences"] = len(seqs)
    for i in range(0, len(seqs), 100): jobs.append(("s", seqs[i:i + 100]))
    # strings
    T = [b"\\", b"0", b"7", b"8", b"x", b"f", b"^", b"e", b":", b"=", b"*", b"?", b"_", b"q", b"F"]
    st = []
    for pre in (b"fi=", b"*", b"", b"*q=", b"fi=5:"):
        for k in range(0, (5 if THOROUGH else 4) if pre in (b"fi=", b"*") else 4 if THOROUGH else 3):
            st += [pre + b"".join(t) for t in itertools.product(T, repeat=k)]
    st += [b"fi=\\" + bytes([c]) for c in range(1, 256)] + [b"fi=^" + bytes([c]) for c in range(1, 256)] + [b"fi=\\%03o" % c for c in range(512)] + [b"fi=\\x%02x." % c for c in range(256)] + [b"fi=\\x%X." % c for c in range(0, 4096, 37)]
    st = list(dict.fromkeys(x for x in st if b"\n" not in x)); chk.extra["strings"] = len(st)
    for i in range(0, len(st), 200): jobs.append(("p", st[i:i + 200]))
    # link targets
    model.make(C, b"t", ("d", {b"f.ab": R, b"d": ("d", {b"g.ab": R, b"h": R, b"e": ("d", {})}), b"w": ("d", {})}))
    os.chmod(os.path.join(CWD, "t/w"), 0o777)
    FI = (stat.S_IFREG | 0o644, 1); DI = (stat.S_IFDIR | 0o755, 2)
    TARGETS = []
    for i, (tgt, sp) in enumerate([
            (b"f.ab", [(b"f.ab", FI)]), (b"d/g.ab", [(b"d/", "di"), (b"g.ab", FI)]), (b"d/h", [(b"d/", "di"), (b"h", FI)]), (b"d", [(b"d", DI)]), (b"d/e", [(b"d/", "di"), (b"e", DI)]),
            (b"w", [(b"w", (stat.S_IFDIR | 0o777, 2))]), (b"nope", [(b"nope", "err")]), (b"d/nope", [(b"d/", "di"), (b"nope", "err")]), (b"d/no/pe", [(b"d/", "di"), (b"no/pe", "err")]),
            (b"f.ab/nope", [(b"f.ab", FI), (b"/nope", "err")]), (b"d/g.ab/n/p", [(b"d/", "di"), (b"g.ab", FI), (b"/n/p", "err")]), (b"../t/f.ab", [(b"../t/", "di"), (b"f.ab", FI)]), (b"./f.ab", [(b"./", "di"), (b"f.ab", FI)]), (b"nope/x", [(b"nope/x", "err")]), (C + b"/t/f.ab", [(C + b"/t/", "di"), (b"f.ab", FI)]), (C + b"/t/nope", [(C + b"/t/", "di"), (b"nope", "err")])]):
        n_ = b"L%d" % i; os.symlink(tgt, os.path.join(C, b"t", n_)); TARGETS.append((n_, tgt, sp))
    for t in assign([b"mi", b"or", b"di", b"fi", b"no", b"ow"]):
        for e in ([], [b"*.ab=99"]): jobs.append(("l", b":".join(t + e)))
    # when
    for tty in range(8):
        for nc in (None, "", "0", "1"):
            for o in ([], ["-color"], ["-nocolor"], ["-color", "-nocolor"], ["-nocolor", "-color"], ["-print", "-color"], ["-print", "-nocolor"], ["-ls"], ["-color", "-ls"], ["-printf", "%p\n"], ["-printf", "%5p%m\n"], ["-color", "-printf", "%5p%m%p\n"], ["-print0"], ["-name", "x", "-color", "-o", "-printx"]):
                if o == ["-printf", "%5p%m\n"]: continue
                jobs.append(("w", tty, nc, o))
    vc.parallel(jobs, work, chk, winit)

vc.main("C21", "model_checking", "every assignment of {default, 0, a value} to the keys of regular files, directories, links and special files x every kind of file x -P/-L x the ways to print a path; every sequence of up to three suffix entries (four over a core alphabet) x names differing in case; every LS_COLORS string of up to three tokens; every combination of terminals, NO_COLOR and options; each decoded into a style per character and compared with an independent reading of LS_COLORS", main,
        ["modes and link counts are set by interposing on statx", "file capabilities are supplied by a substituted getxattr()", "where an overridden suffix entry is the only conflict, either reading is accepted"])
