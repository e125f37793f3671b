#!/usr/bin/env python3
"""C20: every format string up to a length, every directive with every combination of flags, width and precision, every
time format, -ls, over a matrix of files; independence of what was looked at before."""
import sys, os, itertools, ctypes, stat, time, re, shutil, errno, grp, pwd
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vc, model

THOROUGH = vc.TIER == "thorough"
libc = ctypes.CDLL(None)

def csprintf(fmt, v):
    buf = ctypes.create_string_buffer(1 << 17)
    n = libc.snprintf(buf, ctypes.c_size_t(1 << 17), fmt, v)
    return buf.raw[:n]

# ---------------------------------------------------------------- files
NOW = 1700000000
ATTR = {
 "r/f0": dict(size=0, blocks=0, nlink=1, ino=7, uid=0, gid=0, perm=0o644, atime=(0, 0), mtime=(0, 0), ctime=(0, 0), btime=(0, 0)),
 "r/f1": dict(size=1, blocks=1, nlink=2, ino=2**40 + 1, uid=1, gid=1, perm=0o7777, atime=(NOW, 1), mtime=(NOW - 86400, 999999999), ctime=(NOW + 3600, 500000000), btime=(1000000000, 123456789)),
 "r/f2": dict(size=1023, blocks=3, nlink=10, ino=99, uid=12345, gid=54321, perm=0, atime=(-1, 0), mtime=(-86401, 5), ctime=(2**31, 0), btime=(951782400, 0)),
 "r/f3": dict(size=2**63 - 1, blocks=2**40, nlink=65000, ino=12345678901, uid=0, gid=12, perm=0o4751, atime=(68169600, 10), mtime=(NOW - 180 * 86400, 0), ctime=(1711846800, 0), btime=(4102444800, 1)),
 "r/f4": dict(size=511, blocks=2, nlink=1, ino=1, uid=2, gid=2, perm=0o2070, atime=(NOW + 86399, 0), mtime=(NOW + 86400, 0), ctime=(NOW - 180 * 86400 + 1, 0), btime=(1, 1)),
 "r/f5": dict(size=4096, blocks=8, nlink=1, ino=5, uid=0, gid=0, perm=0o1001, atime=(1698541199, 0), mtime=(1698541200, 0), ctime=(1679792399, 0), btime=(1679792400, 0)),
 "r/f6": dict(size=1025, blocks=4, nlink=3, ino=6, uid=0, gid=0, perm=0o6615, atime=(253402300799, 0), mtime=(-62135596800, 0), ctime=(1234567890, 7), btime=(1704067199, 999999990)),
 "r/f7": dict(size=10**12, blocks=0, nlink=3, ino=8, uid=65534, gid=65534, perm=0o1000, atime=(946684799, 999999999), mtime=(946684800, 0), ctime=(1, 0), btime=(0, 1)),
 "r/d": dict(size=4097, blocks=16, nlink=5, ino=11, uid=1, gid=0, perm=0o1777, atime=(1, 2), mtime=(3, 4), ctime=(5, 6), btime=(7, 8)),
}
def attropts():
    out = []
    for p, a in ATTR.items():
        for q in (p, CWD + "/" + p): out.append("attr " + ",".join("%s=%s" % (k, "%d.%09d" % v if isinstance(v, tuple) else v) for k, v in a.items()) + " " + q)
    return out

class St: pass
def getst(p, follow):
    s = os.stat(os.path.join(CWD, p)) if follow else os.lstat(os.path.join(CWD, p))
    o = St()
    o.mode = s.st_mode; o.size = s.st_size; o.blocks = s.st_blocks; o.nlink = s.st_nlink; o.ino = s.st_ino; o.uid = s.st_uid; o.gid = s.st_gid; o.dev = s.st_dev
    for t in "amc": setattr(o, t + "time", divmod(getattr(s, "st_%stime_ns" % t), 10**9))
    o.btime = None
    full = os.path.normpath(os.path.join(CWD, p))
    a = ATTR.get(full.replace(CWD + "/", ""))
    if a:
        for k, v in a.items():
            if k == "perm": o.mode = stat.S_IFMT(o.mode) | v
            else: setattr(o, k, v)
    return o

class File:
    """What is known of a visited file"""
    def __init__(self, path, root, depth, follow):
        self.path = path; self.root = root; self.depth = depth
        self.l = getst(path, False)
        self.islnk = stat.S_ISLNK(self.l.mode)
        self.terr = None
        try: self.t = getst(path, True)
        except OSError as e: self.t = None; self.terr = e.errno
        self.st = self.t if follow and self.t else self.l
    def type(self, st): return {stat.S_IFREG: "f", stat.S_IFDIR: "d", stat.S_IFLNK: "l", stat.S_IFIFO: "p", stat.S_IFSOCK: "s"}[stat.S_IFMT(st.mode)]

def walk(root, follow):
    out = []
    def go(p, d):
        f = File(p, root, d, follow); out.append(f)
        if stat.S_ISDIR(f.st.mode):
            for n in sorted(os.listdir(os.path.join(CWD, p))): go(p + n if p.endswith("/") else p + "/" + n, d + 1)
    go(root, 0)
    return out

def uname(u):
    try: return pwd.getpwuid(u).pw_name
    except KeyError: return str(u)
def gname(g):
    try: return grp.getgrgid(g).gr_name
    except KeyError: return str(g)

TIMEC = "%+@aAbBcCdDeFgGhHIjklmMnprRsStTuUVwWxXyYzZ"
def timefmt(ts, c):
    s, ns = ts
    tm = time.localtime(s)
    nn = "%09d0" % ns
    if c == "@": return "%d.%s" % (s, nn)
    if c == "+": return "%4d-%02d-%02d+%02d:%02d:%02d.%s" % (tm.tm_year, tm.tm_mon, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, nn)
    if c == "k": return "%2d" % tm.tm_hour
    if c == "l": return "%2d" % ((tm.tm_hour + 11) % 12 + 1)
    if c == "s": return "%d" % s
    if c == "S": return "%02d.%s" % (tm.tm_sec, nn)
    if c == "T": return "%02d:%02d:%02d.%s" % (tm.tm_hour, tm.tm_min, tm.tm_sec, nn)
    return time.strftime("%" + c, tm)
DAYS = "Mon Tue Wed Thu Fri Sat Sun".split(); MON = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
def ctimefmt(ts):
    tm = time.localtime(ts[0])
    return "%s %s %2d %02d:%02d:%02d.%09d0 %4d" % (DAYS[tm.tm_wday], MON[tm.tm_mon - 1], tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, ts[1], tm.tm_year)

def modestr(m):
    t = {stat.S_IFREG: "-", stat.S_IFDIR: "d", stat.S_IFLNK: "l", stat.S_IFIFO: "p", stat.S_IFSOCK: "s"}[stat.S_IFMT(m)]
    for sh, sp, ch in ((6, 0o4000, "s"), (3, 0o2000, "s"), (0, 0o1000, "t")):
        b = m >> sh
        t += ("r" if b & 4 else "-") + ("w" if b & 2 else "-")
        t += (ch if b & 1 else ch.upper()) if m & sp else ("x" if b & 1 else "-")
    return t

def base(path):
    """(leading directories, name) of a root"""
    p = path.rstrip("/")
    if not p: return "/", "/"
    i = p.rfind("/") + 1
    return (p[:i - 1] or "/") if i else ".", path[i:]

def value(f, d, sub=None):
    """-> (conversion, ctypes value) or None if not applicable"""
    s = f.st
    S = lambda x: ("s", ctypes.c_char_p(x.encode("utf-8", "surrogateescape")))
    if d == "p": return S(f.path)
    if d == "f" or d == "h":
        if f.depth == 0: h, n = base(f.path)
        else:
            i = f.path.rindex("/"); h, n = f.path[:i] or "/", f.path[i + 1:]
        return S(n if d == "f" else h)
    if d == "H": return S(f.root)
    if d == "P": return S(f.path[len(f.root):].lstrip("/") if f.depth else "")
    if d == "d": return "jd", ctypes.c_longlong(f.depth)
    if d == "m": return "o", ctypes.c_uint(s.mode & 0o7777)
    if d == "M": return S(modestr(s.mode))
    if d == "b": return S(str(s.blocks))
    if d == "k": return S(str((s.blocks + 1) // 2))
    if d == "D": return S(str(s.dev))
    if d == "G": return S(str(s.gid))
    if d == "U": return S(str(s.uid))
    if d == "g": return S(gname(s.gid))
    if d == "u": return S(uname(s.uid))
    if d == "i": return S(str(s.ino))
    if d == "n": return S(str(s.nlink))
    if d == "s": return S(str(s.size))
    if d == "S":
        if s.size == 0: return ("g", ctypes.c_double(1.0)) if s.blocks == 0 else None
        return "g", ctypes.c_double(512.0 * s.blocks / s.size)
    if d == "l": return S(os.readlink(os.path.join(CWD, f.path)) if f.type(s) == "l" else "")
    if d == "y": return S(f.type(s))
    if d == "Y": return S(f.type(f.t) if f.t else "L" if f.terr == errno.ELOOP else "N")
    if d in "actw":
        ts = {"a": s.atime, "c": s.ctime, "t": s.mtime, "w": s.btime}[d]
        return S(ctimefmt(ts)) if ts else None
    if d in "ACTBW":
        ts = {"A": s.atime, "C": s.ctime, "T": s.mtime, "B": s.btime, "W": s.btime}[d]
        return S(timefmt(ts, sub)) if ts else None
    raise ValueError(d)

PLAIN = "pfhHPdmMbkDGUguinsSlyYact"
NUM = "dmS"
ESCS = {"a": "\a", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "v": "\v", "\\": "\\"}
def parse(fmt):
    """-> list of ('lit', bytes) / ('dir', spec, d, sub), or None if malformed"""
    out = []; i = 0
    while i < len(fmt):
        c = fmt[i]
        if c == "\\":
            i += 1
            if i >= len(fmt): return None
            c = fmt[i]
            if c in "01234567":
                j = i
                while j < len(fmt) and j < i + 3 and fmt[j] in "01234567": j += 1
                out.append(("lit", bytes([int(fmt[i:j], 8) & 255]))); i = j; continue
            if c == "c": return out
            if c not in ESCS: return None
            out.append(("lit", ESCS[c].encode())); i += 1
        elif c == "%":
            i += 1
            if fmt[i:i + 1] == "%": out.append(("lit", b"%")); i += 1; continue
            j = i; flags = ""
            while j < len(fmt) and fmt[j] in "#0+ -":
                if fmt[j] in flags: return None
                flags += fmt[j]; j += 1
            k = j
            while k < len(fmt) and fmt[k].isdigit(): k += 1
            if k < len(fmt) and fmt[k] == ".":
                k += 1
                while k < len(fmt) and fmt[k].isdigit(): k += 1
            spec = fmt[i:k]
            if k >= len(fmt): return None
            d = fmt[k]; sub = None
            if d in "ACTBW":
                k += 1
                if k >= len(fmt) or fmt[k] not in TIMEC: return None
                sub = fmt[k]
            elif d not in PLAIN + "FwZ": return None
            if d not in NUM and set(flags) - {"-"}: return None
            out.append(("dir", spec, d, sub)); i = k + 1
        else: out.append(("lit", c.encode("utf-8", "surrogateescape"))); i += 1
    return out

def render(items, f):
    out = b""
    for it in items:
        if it[0] == "lit": out += it[1]; continue
        v = value(f, it[2], it[3])
        if v is None: return None
        out += csprintf(b"%" + it[1].encode() + v[0].encode(), v[1])
    return out

def winit(st): st["srv"] = vc.Server(BFSX)

# ---------------------------------------------------------------- jobs
def grammar(job):
    """Format strings on one file."""
    fmts, = job
    srv = vc.wstate()["srv"]
    out = dict(evals=0, states=0, events=0, distinct=0, violations=[])
    f = F1
    runs = [["-printf", x] for x in fmts]
    opts = ["nouring", *attropts()]
    for x, a, r in zip(fmts, runs, srv.batch([["r/f1", *a] for a in runs], CWD, opts=opts)):
        it = parse(x)
        if it is not None and any(i[0] == "dir" and i[2] in "FZ" for i in it): continue
        out["evals"] += 1; out["states"] += 1; out["events"] += len(it or ()); out["distinct"] += it is not None
        def bad(r):
            if r.sig is not None or r.timeout: return "crash or hang"
            if it is None: return "accepted" if r.status == 0 or not r.err or r.out else None
            want = render(it, f)
            if want is None: return None
            if r.status or r.err: return "exit status %r, %r" % (r.status, r.err)
            if r.out != want: return "%r instead of %r" % (r.out, want)
        w = bad(r)
        if w:
            r = srv.run(["r/f1", *a], CWD, opts=opts); w = bad(r)
        if w: out["violations"].append(("%s: -printf %r" % (w, x), r.brief()))
    return out

def matrix(job):
    """One long format on all files."""
    specs, flag, roots, tz, extra = job
    srv = vc.wstate()["srv"]
    os.environ["TZ"] = tz; time.tzset()
    out = dict(evals=0, states=1, events=0, distinct=0, violations=[])
    fmt = "".join("\\001" + s for s in specs) + "\\002"
    its = [parse(s) for s in specs]
    files = [f for r in roots for f in walk(r, flag == "-L")]
    if any(i[2] in "wBW" for it in its for i in it if i[0] == "dir"): files = [f for f in files if f.st.btime is not None]; sel = ["-inum", None]
    born = any(i[2] in "wBW" for it in its for i in it if i[0] == "dir")
    for out_action, old in ((["-printf", fmt], []), (["-fprintf", "/dev/stdout", fmt], []), (["-printf", fmt], ["nostatx"])):
        if old and born: continue
        if out_action[0] == "-fprintf" and tz != "UTC0": continue
        cond = []
        if any(i[2] in "wBW" for it in its for i in it if i[0] == "dir"): cond = ["-path", "r/f*"]
        args = [*([flag] if flag else []), "-s", "-S", "dfs", *roots, *extra, *cond, *out_action]
        r = srv.run(args, CWD, env=dict(vc.BASE_ENV, TZ=tz), opts=["nouring", *old, *attropts()])
        fs = [f for f in files if not cond or f.path.startswith("r/f")]
        got = {}
        bad = None
        if r.sig is not None or r.timeout: bad = "crash or hang"
        elif r.status or r.err: bad = "exit status %r, %r" % (r.status, r.err)
        else:
            recs = r.out.split(b"\x02")[:-1]
            if len(recs) != len(fs): bad = "%d records instead of %d" % (len(recs), len(fs))
            else:
                for rec, f in zip(recs, fs):
                    cols = rec.split(b"\x01")[1:]
                    for s, it, c in zip(specs, its, cols):
                        out["evals"] += 1; out["events"] += 1; out["distinct"] += 1
                        w = render(it, f)
                        if w is not None and c != w: bad = "%s of %s is %r instead of %r" % (s, f.path, c, w); break
                    if bad: break
        if bad: out["violations"].append(("%s: %s, TZ %s%s" % (bad, " ".join(a for a in args if a != fmt), tz, ", without statx()" * bool(old)), "")); break
    return out

def ls(job):
    act, flag, now, tz = job
    srv = vc.wstate()["srv"]
    os.environ["TZ"] = tz; time.tzset()
    out = dict(evals=1, states=1, events=0, distinct=1, violations=[])
    args = [*([flag] if flag else []), "-s", "-S", "dfs", "r", *act]
    r = srv.run(args, CWD, env=dict(vc.BASE_ENV, TZ=tz), opts=["nouring", "now %d" % now, *attropts()])
    want = []
    for f in walk("r", flag == "-L"):
        s = f.st
        tm = time.localtime(s.mtime[0])
        if s.mtime[0] <= now - 180 * 86400 or s.mtime[0] >= now + 86400: t = time.strftime("%b %e  %Y", tm)
        else: t = time.strftime("%b %e %H:%M", tm)
        l = [str(s.ino), str((s.blocks + 1) // 2), modestr(s.mode), str(s.nlink), uname(s.uid), gname(s.gid), str(s.size), *t.split(), *f.path.split()]
        if f.type(s) == "l": l += ["->", *os.readlink(os.path.join(CWD, f.path)).split()]
        want.append(l)
    got = [l.decode("utf-8", "surrogateescape").split() for l in r.out.split(b"\n")[:-1]]
    out["events"] = len(got)
    if r.status or r.err or got != want:
        d = next(((g, w) for g, w in zip(got, want) if g != w), (got[-1:], want[-1:]))
        out["violations"].append(("-ls prints %r instead of %r, exit status %r: bfs %s (now %d, TZ %s)" % (d[0], d[1], r.status, " ".join(args), now, tz), r.brief()))
    return out

PRE = [[], ["-type", "l"], ["-xtype", "l"], ["-size", "+0"], ["-newer", "r/f1"], ["-empty"], ["-perm", "-1"], ["-samefile", "r/f2"], ["-lname", "*"], ["-executable"], ["-printf", ""], ["-fprintf", "/dev/null", "%Y%y%l%s"], ["-fls", "/dev/null"], ["-unique"], ["-maxdepth", "3"], ["-O0"], ["-O4"], ["-depth"], ["-user", "0"], ["-j2"], ["-links", "1"], ["-xtype", "f,d"], ["-type", "f"], ["-fprint", "/dev/null"]]
def indep(job):
    """The same directive after other tests and actions."""
    flag, d = job
    srv = vc.wstate()["srv"]
    out = dict(evals=0, states=1, events=0, distinct=0, violations=[])
    runs = []
    for p in PRE:
        if p and p[0] in ("-O0", "-O4", "-unique", "-maxdepth", "-depth", "-j2"): a = [*p, "-printf", "%p:" + d + "\\n"]
        else: a = [*(["(", *p, "-o", "-true", ")"] if p else []), "-printf", "%p:" + d + "\\n"]
        runs.append([flag, "r", *a])
    for p in PRE[1:]:
        for q in PRE[1:]:
            if p[0] in ("-O0", "-O4", "-unique", "-maxdepth", "-depth", "-j2") or q[0] in ("-O0", "-O4", "-unique", "-maxdepth", "-depth", "-j2"): continue
            runs.append([flag, "r", "(", *p, "-o", *q, "-o", "-true", ")", "-printf", "%p:" + d + "\\n"])
    opts = ["nouring", *attropts()]
    rr = srv.batch(runs, CWD, opts=opts)
    ref = sorted(rr[0].out.split(b"\n"))
    for a, r in zip(runs, rr):
        out["evals"] += 1; out["events"] += r.out.count(b"\n"); out["distinct"] += 1
        if "-unique" in a and flag == "-L":
            ok = set(r.out.split(b"\n")) <= set(ref)
        else: ok = sorted(r.out.split(b"\n")) == ref
        if not ok or r.status != rr[0].status:
            r = srv.run(a, CWD, opts=opts)
            g = r.out.split(b"\n")
            ok = set(g) <= set(ref) if "-unique" in a and flag == "-L" else sorted(g) == ref
            if not ok or r.status != rr[0].status: out["violations"].append(("%s differs, %r instead of %r, after other tests: bfs %s" % (d, sorted(set(g) - set(ref))[:3], sorted(set(ref) - set(g))[:3], " ".join(a)), r.brief()))
    return out

def modes(job):
    """%m, %M and -ls of every permission of a type of file."""
    t, = job
    srv = vc.wstate()["srv"]
    out = dict(evals=0, states=1, events=0, distinct=0, violations=[])
    d = "m" + t
    os.mkdir(os.path.join(CWD, d))
    want = {}
    for m in range(4096):
        p = os.path.join(CWD, d, "%04o" % m)
        if t == "f": os.close(os.open(p, os.O_CREAT | os.O_WRONLY, 0o600))
        elif t == "d": os.mkdir(p)
        elif t == "p": os.mkfifo(p)
        else: os.mknod(p, stat.S_IFSOCK | 0o600)
        os.chmod(p, m)
        want[b"%04o" % m] = modestr(os.lstat(p).st_mode).encode()
    args = [d, "-mindepth", "1", "-printf", "%f|%m|%M|%#m|%04m|\\n", "-ls"]
    r = srv.run(args, CWD)
    got = {}; ls = {}
    for l in r.out.split(b"\n")[:-1]:
        if b"|" in l:
            c = l.split(b"|"); got[c[0]] = c[1:]
        else:
            c = l.split(); ls[c[-1].split(b"/")[-1]] = c[2]
    out["evals"] = out["events"] = out["distinct"] = len(got) + len(ls)
    bad = None
    if r.status or r.sig is not None or set(got) != set(want) or set(ls) != set(want): bad = "exit status %r, %d and %d files" % (r.status, len(got), len(ls))
    for k, w in want.items():
        if bad: break
        m = int(k, 8)
        e = [b"%o" % m, w, b"0%o" % m if m else b"0", b"%04o" % m, b""]
        if got[k] != e: bad = "mode %s is shown as %r instead of %r" % (k.decode(), got[k], e)
        elif ls[k] != w: bad = "-ls shows mode %s as %r instead of %r" % (k.decode(), ls[k], w)
    if bad: out["violations"].append(("%s: bfs %s" % (bad, " ".join(args)), ""))
    shutil.rmtree(os.path.join(CWD, d))
    return out

def rootdir(job):
    """The names of / and of a file in it, with every directive that shows one."""
    root, = job
    srv = vc.wstate()["srv"]
    out = dict(evals=0, states=1, events=0, distinct=0, violations=[])
    fmt = "%p|%f|%h|%H|%P|%d|%y\n"
    for a, want in ((["-maxdepth", "0"], "%s|/|/|%s||0|d\n" % (root, root)),
                    (["-mindepth", "1", "-maxdepth", "1", "-name", "usr"], "%susr|usr|%s|%s|usr|1|d\n" % (root, root[:-1] or "/", root))):
        r = srv.run([root, *a, "-printf", fmt], CWD, opts=["nouring"])
        out["evals"] += 1; out["events"] += 1; out["distinct"] += 1
        if r.status or r.out != want.encode(): out["violations"].append(("%r instead of %r: bfs %s" % (r.out, want, " ".join([root, *a])), r.brief()))
    return out

def work(j): return {"n": modes, "r": rootdir, "g": grammar, "m": matrix, "l": ls, "i": indep}[j[0]](j[1:])

def main(chk):
    global BFSX, CWD, F1
    b = vc.Build(cflags="-g -O1"); BFSX = b.bfsx()
    CWD = os.path.realpath(vc.ramscratch("pf"))
    F = ("f", 0)
    model.make(os.fsencode(CWD), b"r", ("d", {**{b"f%d" % i: F for i in range(8)}, b"d": ("d", {b"x": ("f", 5), b"e e": ("d", {b"y.z": ("f", 700)})}), b"l": ("l", b"f0"), b"lb": ("l", b"nope/x" * 30), b"ld": ("l", b"d/e e"), b"p": ("p",), b"s": ("s",), "é".encode(): F}))
    model.make(os.fsencode(CWD), b"q", ("d", {b"ll": ("l", b"ll"), b"ln": ("l", b"../r/f0/x")}))
    os.environ["TZ"] = "UTC0"; time.tzset()
    F1 = File("r/f1", "r/f1", 0, False)
    jobs = []
    # 1. the grammar
    TOK = ["%", "\\", "p", "d", "m", "s", "c", "n", "0", "7", "8", "-", "#", "5", ".", " ", "+", "T", "Y", "q", "@", "f"]
    fm = ["".join(t) for n in range(0, 4) for t in itertools.product(TOK, repeat=n)]
    fm += ["%" + "".join(t) for t in itertools.product(TOK, repeat=3)] + ["\\" + "".join(t) for t in itertools.product(["0", "1", "7", "8", "3", "c", "n", "%"], repeat=4)]
    fm += ["%" + "".join(t) + d for t in itertools.product(["-", "#", "0", "+", " ", "5", "12", ".", "3"], repeat=3) for d in "dmSp"]
    if THOROUGH: fm += ["%" + "".join(t) + d for t in itertools.product(["-", "#", "0", "+", " ", "5", "12", ".", "3"], repeat=4) for d in "dmSpsM"] + ["".join(t) for t in itertools.product(TOK, repeat=4)]
    fm += ["%" + chr(c) for c in range(1, 128)] + ["\\" + chr(c) for c in range(1, 128)] + ["%T" + chr(c) for c in range(1, 128)] + ["%-3.2" + chr(c) for c in range(1, 128)]
    fm += ["\\%03o" % c for c in range(512)] + ["%p\\c%q", "%p\\cabc", "a\\c", "\\c", "%", "\\", "%5", "%-", "%.", "%T", "%5.3T"]
    fm = list(dict.fromkeys(x for x in fm if "\0" not in x))
    chk.extra["formats"] = len(fm)
    for i in range(0, len(fm), 200): jobs.append(("g", fm[i:i + 200]))
    # 2. directives x flags x width x precision
    def specs(dirs, flags, ws, ps):
        for d in dirs:
            for n in range(len(flags) + 1):
                for fl in itertools.combinations(flags, n):
                    if d not in NUM and set(fl) - {"-"}: continue
                    for w in ws:
                        for p in ps: yield "%" + "".join(fl) + w + p + d
    sp = list(specs(PLAIN, "-#0+ ", ["", "1", "7", "30"], ["", ".", ".0", ".1", ".4"]))
    chk.extra["directive_forms"] = len(sp)
    roots = [["r"], ["r/"], ["./r"], ["r///"], [CWD + "/r"], ["r/d", "r/f0"], ["q", "r/l", "r/lb"], ["."], ["./"], ["r/d/e e/"]]
    for flag in (None, "-L"):
        for i in range(0, len(sp), 60):
            for rs in (roots[:1] if i % 240 else roots): jobs.append(("m", sp[i:i + 60], flag, rs if flag is None or (rs[0][0] != "." and "q" not in rs) else ["r"], "UTC0", []))
        for rs in roots:
            if flag is None or (rs[0][0] != "." and "q" not in rs): jobs.append(("m", ["%" + d for d in PLAIN], flag, rs, "UTC0", []))
    # 3. times
    TZS = ["UTC0", "Europe/Berlin", "America/New_York", "Asia/Kolkata", "EST5EDT,M3.2.0,M11.1.0", "<+0545>-5:45", "Pacific/Apia"]
    ts = ["%" + a + c for a in "ACTBW" for c in TIMEC] + ["%a", "%c", "%t", "%w"]
    for tz in TZS:
        for i in range(0, len(ts), 40): jobs.append(("m", ts[i:i + 40], None, ["r"], tz, []))
        for fl in ("-", ""):
            for w in ("25", "5.3"): jobs.append(("m", ["%" + fl + w + a + c for a in "AT" for c in TIMEC], None, ["r"], tz, []))
    # 4. -ls
    for tz in TZS:
        for now in (NOW, NOW + 1, NOW - 1, 0, 86400, 10**9, NOW + 180 * 86400, 1698541200 + 180 * 86400, 1698541200 - 86400):
            for act in (["-ls"], ["-fls", "/dev/stdout"]):
                jobs.append(("l", act, None, now, tz))
    for t in "fdps": jobs.append(("n", t))
    for t in ("/", "//", "///"): jobs.append(("r", t))
    # 5. independence
    for flag in ("-P", "-L", "-H"):
        for d in PLAIN: jobs.append(("i", flag, "%" + d))
    vc.parallel(jobs, work, chk, winit)

vc.main("C20", "model_checking", "every format string of up to three tokens (and longer ones after % and \\) on one file, every directive x flag subset x width x precision, every time format x time zone, -ls at boundary times, over files with boundary attribute values, roots of every shape, -P and -L; every directive after every pair of other tests; compared with an independent renderer (libc's printf and strftime for the final conversion)", main,
        ["attributes are set by interposing on statx", "the C library's own number and time formatting is trusted", "%F and %Z are not rendered (they depend on the system)", "C locale"])
