#!/usr/bin/env python3
"""C07: every attribute test, over grids of arguments and file attributes, against the documented relation."""
import sys, os, re, itertools, calendar, time, stat as S
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vc

THOROUGH = vc.TIER == "thorough"
NOW = (1700000000, 250000000)
U = {"c": 1, "w": 2, "b": 512, "": 512, "k": 1024, "M": 1 << 20, "G": 1 << 30, "T": 1 << 40, "P": 1 << 50}
I63 = (1 << 63) - 1

def icmp(form, n, v): return v == n if form == "" else v > n if form == "+" else v < n
def cdiv(a, b): return -(-a // b)

# ---------------------------------------------------------------- groups of (files, commands)
# A group: name, {file name: attr spec}, list of (args, predicate(file name) or None if it must be rejected), options
def attrs_of(vals, fmt): return {"f%d" % i: fmt % v for i, v in enumerate(vals)}

def numeric(name, key, vals, args, unit=lambda v: v, units=("",)):
    files = attrs_of(vals, key + "=%d")
    cmds = []
    for a in args:
        for form in ("", "+", "-"):
            for u in units:
                k = U[u] if name == "-size" else 1
                cmds.append(([name, "%s%d%s" % (form, a, u)], {"f%d" % i for i, v in enumerate(vals) if icmp(form, a, cdiv(v, k))}))
            if not units[0]: cmds.append(([name, "%s+%d" % (form, a)], {"f%d" % i for i, v in enumerate(vals) if icmp(form, a, cdiv(v, U[""] if name == "-size" else 1))}) if form else ([name, "%s%03d" % (form, a)], {"f%d" % i for i, v in enumerate(vals) if icmp(form, a, cdiv(v, U[""] if name == "-size" else 1))}))
    return cmds, files

BADNUM = ["", "x", "1x", "1 ", " 1", "+", "-", "+-1", "--1", "1.5", "0x10", "1,2", "9223372036854775808", "99999999999999999999", "+9223372036854775808", "1+", "e", "1e3"]

def g_size():
    sizes = sorted({0, 1, 2, 3, I63, I63 - 1, 1 << 62} | {m * u + d for u in set(U.values()) for m in (1, 2, 3, 5) for d in (-1, 0, 1)} | {4096, 511 * 1024, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 31)})
    args = [0, 1, 2, 3, 4, 5, 6, 511, 512, 513, 1023, 1024, 1025, 1 << 31, (1 << 32) + 1, 1 << 53, I63 - 1, I63]
    c, f = numeric("-size", "size", sizes, args, units=tuple(U))
    bad = [(["-size", b], None) for b in BADNUM] + [(["-size", "1" + x], None) for x in ("K", "m", "g", "kb", "kk", "C", "B", "t", "Pc", "\t")] + [(["-size", x], None) for x in ("k", "+k", "-c", "k1")]
    return "size", f, c + bad, {}

def g_num(name, key, vals, args):
    c, f = numeric(name, key, vals, args)
    bad = [(["-" + name[1:], b], None) for b in BADNUM + ["1c", "1k"]]
    return name[1:], f, c + bad, {}

def g_depth():
    files = {}
    paths = {"d" * 1: None}
    cmds = []
    ps = [".", "./a", "./a/b", "./a/b/c", "./a/b/c/d", "./z"]
    dep = {p: p.count("/") for p in ps}
    for a in range(0, 6):
        for form in ("", "+", "-"):
            cmds.append((["-depth", form + str(a)], {p for p in ps if icmp(form, a, dep[p])}))
    for b in ("+-1", "9223372036854775808", "1x"): cmds.append((["-depth", b], None))
    return "depth", {"a/b/c/d": "", "z": ""}, cmds, {"full": True}

def g_owner():
    import pwd, grp
    ids = [0, 1, 2, 65534, 65535, 99999, (1 << 31) - 1, 1 << 31, (1 << 32) - 2]
    files = {"f%d_%d" % (u, g): "uid=%d,gid=%d" % (u, g) for u in ids for g in (0, 1, 65534, 77777)}
    cmds = []
    def sel(fn): return {n for n in files if fn(*map(int, n[1:].split("_")))}
    for a in [0, 1, 2, 3, 65534, 65535, 99999, 1 << 31, (1 << 32) - 2, (1 << 32) - 1]:
        for form in ("", "+", "-"):
            for t in ("-uid", "-user"): cmds.append(([t, form + str(a)], sel(lambda u, g: icmp(form, a, u))))
            for t in ("-gid", "-group"): cmds.append(([t, form + str(a)], sel(lambda u, g: icmp(form, a, g))))
    for p in pwd.getpwall(): cmds.append((["-user", p.pw_name], sel(lambda u, g: u == p.pw_uid)))
    for p in grp.getgrall(): cmds.append((["-group", p.gr_name], sel(lambda u, g: g == p.gr_gid)))
    us = {p.pw_uid for p in pwd.getpwall()}; gs = {p.gr_gid for p in grp.getgrall()}
    cmds.append((["-nouser"], sel(lambda u, g: u not in us)))
    cmds.append((["-nogroup"], sel(lambda u, g: g not in gs)))
    cmds.append((["!", "-nouser"], sel(lambda u, g: u in us)))
    cmds.append((["-nogroup", "-nouser"], sel(lambda u, g: u not in us and g not in gs)))
    cmds += [([t, b], None) for t in ("-uid", "-gid", "-user", "-group") for b in BADNUM + ["nosuchname", "rootx", "root "]]
    return "owner", files, cmds, {}

# chmod(1) symbolic modes, by POSIX, applied to mode 0
def chmod(m, isdir, umask):
    mode = 0
    for clause in m.split(","):
        i = 0; who = 0
        while i < len(clause) and clause[i] in "ugoa":
            who |= {"u": 0o4700, "g": 0o2070, "o": 0o1007, "a": 0o7777}[clause[i]]; i += 1
        if i == len(clause): return None
        nowho = who == 0
        if nowho: who = 0o7777
        while i < len(clause):
            op = clause[i]; i += 1
            if op not in "+-=": return None
            ch = 0
            if i < len(clause) and clause[i] in "ugo":
                b = mode >> {"u": 6, "g": 3, "o": 0}[clause[i]] & 7; i += 1
                ch = (b << 6 | b << 3 | b)
            else:
                while i < len(clause) and clause[i] in "rwxXst":
                    c = clause[i]; i += 1
                    ch |= {"r": 0o444, "w": 0o222, "x": 0o111, "X": 0o111 if isdir else 0, "s": 0o6000, "t": 0o1000}[c]
            ch &= who
            if nowho: ch &= ~umask
            if op == "+": mode |= ch
            elif op == "-": mode &= ~ch
            else: mode = mode & ~(who & 0o777) | ch
    return mode

def g_perm(umask):
    modes = [0, 0o7777, 0o777, 0o644, 0o755, 0o4755, 0o2755, 0o1777, 0o6000, 0o1000, 0o2000, 0o4000] + [1 << i for i in range(12)] + [0o7777 & ~(1 << i) for i in range(12)] + [0o111, 0o222, 0o333, 0o444, 0o555, 0o666, 0o700, 0o070, 0o007, 0o070 | 0o4000, 0o500, 0o050, 0o005, 0o600, 0o060, 0o006, 0o300, 0o030, 0o003, 0o750, 0o640, 0o440, 0o220, 0o110, 0o550, 0o660, 0o774]
    modes = sorted(set(modes))
    syms = set()
    whos = ["", "u", "g", "o", "a", "ug", "go", "uo", "ua", "ugo"]
    acts = [o + p for o in "+-=" for p in ("", "r", "w", "x", "X", "s", "t", "rw", "rx", "rwx", "rwxst", "u", "g", "o")]
    for w in whos:
        for a in acts: syms.add(w + a)
    small = [o + p for o in "+-=" for p in ("", "r", "w", "x", "rw", "X", "u", "g", "o")]
    for w in ("", "u", "g", "go", "a", "o"):
        for a in ("+r", "=rw", "=rwx", "+rx", "=x"):
            for b in small: syms.add(w + a + b)
            for w2 in ("", "u", "g", "o", "a"):
                for b in small: syms.add(w + a + "," + w2 + b)
    for w in ("", "u", "go"):
        for a in ("+r", "=rw"):
            for b in ("+w", "-r", "=x", "+u"):
                for c in ("+x", "=", "-w", "=g"): syms.add(w + a + b + c); syms.add("a=r," + w + a + "," + b + ",g" + c)
    good = {}
    for s in sorted(syms): good[s] = (chmod(s, False, umask), chmod(s, True, umask))
    for n in range(0, 0o10000, 1 if THOROUGH else 7): good["%o" % n] = (n, n)
    for n in (0, 0o7777, 0o644): good["%05o" % n] = (n, n)
    if not THOROUGH and umask == 0o22: good = {k: v for k, v in good.items() if "," in k or not k[0] in "ugoa01234567"}
    files = {"%s%04o" % (t, m): "mode=%d" % ((S.S_IFDIR if t == "d" else S.S_IFREG) | m) for m in modes for t in "fd"}
    info = {n: (n[0] == "d", int(n[1:], 8)) for n in files}
    cmds = []
    for s, (fm, dm) in good.items():
        if ("s" in s or "t" in s) and "=" in s[max(s.find("s"), s.find("t")):]: continue   # '=' after s/t: not specified
        if "X" in s and "x" in s: continue       # whether X sees an earlier x differs between chmods
        for pre in ("", "-", "/", "+"):
            if pre == "+" and not s[0].isdigit(): continue
            if pre == "" and s[0] in "+-/" and s[0] != "+": continue   # would be read as the prefix
            if pre == "" and s[0] == "+" and len(s) > 1 and s[1].isdigit(): continue
            exp = set()
            for n, (d, m) in info.items():
                t = dm if d else fm
                if (m == t if pre == "" else (m & t) == t if pre == "-" else (t == 0 or m & t)): exp.add(n)
            cmds.append((["-perm", pre + s], exp))
    for b in ("", "8", "9", "18", "0x1", "10000", "77777", "r", "u", "a", "rwx", "u+q", "u+r,", ",u+r", "u+r,,g+r", "u+rg", "u++r+", "1r", "u+r ", " 644", "644 ", "-", "/", "+", "-+-", "z+r", "u~r", "u+ru", "u+ur", "a=rwx,g", "99999999999999999999", "4294967296", "-8", "/8", "+8"):
        if chmod(b.lstrip("-/"), False, 0) is not None and b.lstrip("-/") and not b[0].isdigit() and b not in ("u+ru",): continue
        cmds.append((["-perm", b], None))
    return "perm-umask%03o" % umask, files, cmds, {"opts": ["umask %03o" % umask], "dirs": True}

def g_type():
    T = {"b": S.S_IFBLK, "c": S.S_IFCHR, "d": S.S_IFDIR, "f": S.S_IFREG, "l": S.S_IFLNK, "p": S.S_IFIFO, "s": S.S_IFSOCK}
    files = {"%s_" % t: "mode=%d" % (m | 0o644) for t, m in T.items()}
    cmds = []
    for r in range(1, 4):
        for c in itertools.permutations("bcdflps", r):
            if r == 3 and not THOROUGH and c[0] > c[1]: continue
            for t in ("-type", "-xtype"):
                cmds.append(([t, ",".join(c)], {x + "_" for x in c}))
    for b in ("", "x", "ff", "f,", ",f", "f,,d", "f d", "F", "fd", "f;d", "f,x", "L"): cmds += [(["-type", b], None), (["-xtype", b], None)]
    return "type", files, cmds, {"opts": ["rule getdents 1 0 U0 *"], "kinds": True}

UNITS = {"s": 1, "m": 60, "h": 3600, "d": 86400, "w": 604800}
FIELDS = {"a": "atime", "c": "ctime", "m": "mtime", "B": "btime"}
def trunc(a, b): return a // b if a >= 0 else -(-a // b)

def g_time(daystart=None, tz=None, now=NOW):
    ages = []
    for base in (0, 60, 120, 3600, 86400, 2 * 86400, 3 * 86400, 7 * 86400, 10 * 60):
        for d in (-1, 0, 1):
            for ns in (-1, 0, 1): ages.append((base + d) * 10**9 + ns)
    ages += [-3600 * 10**9, -86400 * 10**9, -90000 * 10**9, 40 * 365 * 86400 * 10**9, 80 * 365 * 86400 * 10**9, 36 * 3600 * 10**9, 5400 * 10**9]
    ref = now[0] * 10**9 + now[1] if daystart is None else daystart * 10**9
    files = {}; age = {}
    for i, a in enumerate(sorted(set(ages))):
        t = ref - a
        sec, ns = divmod(t, 10**9)
        files["f%d" % i] = ",".join("%s=%d.%d" % (f, sec + (86400 if k != "m" and daystart is not None else 0) * 0, ns) for k, f in FIELDS.items())
        age["f%d" % i] = a // 10**9
        # make each time different, so that the wrong one gives the wrong answer
        spec = []
        for j, (k, f) in enumerate(FIELDS.items()):
            spec.append("%s=%d.%d" % (f, sec - j * 5 * 86400 - j * 600, ns))
        files["f%d" % i] = ",".join(spec)
    off = {k: j * (5 * 86400 + 600) for j, k in enumerate(FIELDS)}
    cmds = []
    pre = ["-daystart"] if daystart is not None else []
    def add(test, arg, k, form, n, unit):
        exp = set()
        for f, a in age.items():
            v = a + off[k]
            if v < 0 and unit == 1 and a * 10**9 != (a * 10**9): continue
            if icmp(form, n, trunc(v, unit)): exp.add(f)
        cmds.append((pre + [test, form + arg], exp))
    for k in FIELDS:
        for form in ("", "+", "-"):
            for n in [0, 1, 2, 3, 5, 6, 7, 8, 10, 14600, 29200, I63]:
                add("-%stime" % k, str(n), k, form, n, 86400)
                add("-%smin" % k, str(n), k, form, n, 60)
            for n in [0, 1, 2, 10, 59, 60, 61, 1440, 7200, 7210]:
                add("-%smin" % k, str(n), k, form, n, 60)
            for u, m in UNITS.items():
                for n in (0, 1, 2, 3, 24, 60, 120, 432600): add("-%stime" % k, "%d%s" % (n, u), k, form, n * m, 1)
            for arg, n in (("1d12h", 129600), ("1h30m", 5400), ("1w1d", 8 * 86400), ("1m1s", 61), ("1s1m", 61), ("0d1h0m0s", 3600), ("5d10m", 432600), ("2d2d", 4 * 86400), ("9999999999w", 9999999999 * 604800), ("1d9999999999w", 9999999999 * 604800 + 86400)): add("-%stime" % k, arg, k, form, n, 1)
    if not pre:
        cmds += [(["-%s%s" % (k, t), b], None) for k in FIELDS for t in ("min", "time") for b in BADNUM]
        cmds += [(["-mtime", b], None) for b in ("1y", "1d1", "1d-1h", "1dd", "d", "1 d", "1d 1h", "1D", "1ms", "1d+", "9223372036854775807w", "+9223372036854775807s1s", "-9223372036854775807d", "9223372036854775807s1s", "1000000000000000000w", "1w9223372036854775807s")]
        cmds += [(["-mmin", b], None) for b in ("1m", "1s", "1d")]
    return "time" + ("-daystart-%s-%d" % (tz, now[0]) if pre else ""), files, cmds, {"now": now, "tz": tz, "maxage": age}

def g_used():
    files = {}; exp = {}
    day = 86400
    for i, (d, ns) in enumerate((x, n) for x in (-day, -1, 0, 1, 59, day - 1, day, day + 1, 2 * day - 1, 2 * day, 2 * day + 1, 10 * day) for n in (0,)):
        files["f%d" % i] = "atime=%d.%d,ctime=%d.%d" % (NOW[0] + d, 5, NOW[0], 5); exp["f%d" % i] = d
    cmds = []
    for n in range(0, 12):
        for form in ("", "+", "-"):
            cmds.append((["-used", form + str(n)], {f for f, d in exp.items() if d >= 0 and icmp(form, n, cdiv(d, day))}))
    cmds += [(["-used", b], None) for b in BADNUM + ["1d"]]
    return "used", files, cmds, {}

def g_newer():
    files = {}; T = {}
    base = 1500000000
    vals = [(base + a, n) for a in (-1, 0, 1) for n in (0, 1, 999999999)] + [(0, 0), (-5, 7), (1 << 33, 3)]
    for i, v in enumerate(vals):
        for k in "acmB":
            t = {x: (base - 100, 0) for x in FIELDS}
            t[k] = v
            n = "%s%d" % (k, i)
            T[n] = t; files[n] = ",".join("%s=%d.%d" % (FIELDS[x], *t[x]) for x in FIELDS)
    cmds = []
    def sel(x, r): return {n for n in T if T[n][x] > r}
    refs = [n for n in T]
    for r in refs:
        for x in "acmB":
            for y in "acmB":
                cmds.append((["-newer%s%s" % (x, y), r], sel(x, T[r][y])))
            cmds.append((["-%snewer" % x, r], sel(x, T[r]["m"])))
        cmds.append((["-newer", r], sel("m", T[r]["m"])))
    for s in (base - 1, base, base + 1, 0, -5, 1 << 33):
        for x in "acmB":
            cmds.append((["-newer%st" % x, "@%d" % s], sel(x, (s, 0))))
            cmds.append((["-%ssince" % x, "@%d" % s], sel(x, (s, 0))))
        cmds.append((["-since", "@%d" % s], sel("m", (s, 0))))
    cmds += [(a, None) for a in (["-newer", "nonexistent"], ["-newerxm", "a0"], ["-newermx", "a0"], ["-newerm", "a0"], ["-newermmm", "a0"], ["-newermt", "notatime"], ["-newer"], ["-newertm", "a0"])]
    return "newer", files, cmds, {}

def g_inum():
    vals = [1, 2, 3, 4095, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, I63]
    return g_num("-inum", "ino", vals, vals + [0])

def g_links():
    vals = [0, 1, 2, 3, 65535, 65536, (1 << 32) - 1]
    return g_num("-links", "nlink", vals, vals + [1 << 32])

def groups():
    gs = [g_size(), g_inum(), g_links(), g_depth(), g_owner(), g_perm(0o22), g_perm(0), g_perm(0o77), g_type(), g_time(), g_used(), g_newer()]
    # -daystart: measured from the end of the current local day, also on days when clocks change
    tz = "EST5EDT,M3.2.0,M11.1.0"
    def end(y, m, d, off): return calendar.timegm((y, m, d, 0, 0, 0)) + off
    for (y, m, d, h, mi), e in (((2023, 11, 14, 22, 13), end(2023, 11, 15, 5 * 3600)), ((2023, 7, 4, 12, 0), end(2023, 7, 5, 4 * 3600)),
                                ((2023, 11, 5, 0, 30), end(2023, 11, 6, 5 * 3600)), ((2023, 11, 5, 12, 0), end(2023, 11, 6, 5 * 3600)),
                                ((2023, 3, 12, 0, 30), end(2023, 3, 13, 4 * 3600)), ((2023, 3, 12, 12, 0), end(2023, 3, 13, 4 * 3600)), ((2023, 12, 31, 23, 59), end(2024, 1, 1, 5 * 3600))):
        dst = (m, d, h) > (3, 12, 2) and (m, d, h) < (11, 5, 1)
        now = calendar.timegm((y, m, d, h, mi, 0)) + (4 if dst else 5) * 3600
        gs.append(g_time(daystart=e, tz=tz, now=(now, 5)))
    gs.append(g_time(daystart=calendar.timegm((2023, 11, 15, 0, 0, 0)), tz="UTC0", now=(calendar.timegm((2023, 11, 15, 0, 0, 0)), 0)))
    return gs

def winit(st): st["srv"] = vc.Server(BFSX)

def work(job):
    gi, lo, hi, strat, *extra = job
    name, files, cmds, o = GROUPS[gi]
    srv = vc.wstate()["srv"]
    cwd = os.path.join(RAM, "g%d" % gi)
    opts = ["nouring", *o.get("opts", ()), *extra]
    for f, a in files.items():
        if a: opts.append("attr %s %s" % (a, f))
    now = o.get("now", NOW)
    opts.append("now %d %d" % now)
    env = dict(vc.BASE_ENV)
    if o.get("tz"): env["TZ"] = o["tz"]
    out = dict(evals=0, events=0, states=0, distinct=0, violations=[], samples=[])
    def args(c): return ["-j1", *strat] + ([] if o.get("full") else ["-mindepth", "1", "-maxdepth", "1"]) + c[0] + ["-print0"]
    part = cmds[lo:hi]
    if "nostatx" in extra: part = [c for c in part if not any(re.match(r"-(B|newerB|newer.B)", a) for a in c[0])]
    def judge(c, r):
        if r.timeout: return "hang"
        if r.sig is not None: return "killed by signal %d" % r.sig
        if c[1] is None:
            if r.status == 0: return "malformed argument accepted"
            if r.out: return "malformed argument, but files were searched"
            if not r.err: return "malformed argument rejected without a diagnostic"
            return None
        if r.status != 0 or r.err: return "unexpected failure"
        got = [os.fsdecode(x) for x in r.out.split(b"\0")[:-1]]
        if not o.get("full"): got = [x[2:] if x.startswith("./") else x for x in got]
        if sorted(got) != sorted(c[1]):
            w = sorted(set(got) - c[1])[:3]; m = sorted(c[1] - set(got))[:3]
            return "wrongly matched %s, wrongly not matched %s" % ([(x, files.get(x)) for x in w], [(x, files.get(x)) for x in m])
        return None
    for i in range(0, len(part), 200):
        b = part[i:i + 200]
        for c, r in zip(b, srv.batch([args(c) for c in b], cwd, env=env, opts=opts)):
            w = judge(c, r)
            if w:
                r = srv.run(args(c), cwd, env=env, opts=opts); w = judge(c, r)
            if w: out["violations"].append(("%s: %s" % (" ".join(c[0]), w), "group %s %s argv %r\nnow %s tz %s\n%s" % (name, " ".join(extra), r.argv, now, o.get("tz"), r.brief())))
            out["evals"] += 1
            out["events"] += len(files)
            if c[1]: out["distinct"] += 1
        if len(out["violations"]) > 3: break
    out["states"] += len(files)
    if part and lo == 0: out["samples"].append("%s: %d files x %d commands, e.g. %s" % (name, len(files), len(cmds), " ".join(part[len(part) // 2][0])))
    return out

def special(chk):
    """Tests on real files: -empty, -samefile, -hidden, access tests, link handling."""
    d = vc.scratch("attr-real"); os.chmod(d, 0o777)
    p = lambda x: os.path.join(d, x)
    for n in ("dempty", "dfull", "dfull/sub", ".hid", ".hid/.h2", ".hid/v", "dhid"): os.mkdir(p(n))
    for n in ("e0", "e1", ".dot", "..dd", "a.b", "dfull/x", "dhid/.only"): open(p(n), "w").close()
    open(p("e1"), "w").write("x")
    os.link(p("e1"), p("hl")); os.symlink("e1", p("ln")); os.symlink("dempty", p("ld")); os.symlink("none", p("broken")); os.mkfifo(p("fifo"))
    open(p("cp"), "w").write("x")
    allf = [os.path.relpath(os.path.join(r, f), d) for r, ds, fs in os.walk(d) for f in ds + fs]
    srv = vc.Server(BFSX)
    def check(args, exp, opts=(), st=0):
        r = srv.run(["-j1", *args, "-print0"], d, opts=opts)
        got = sorted(os.fsdecode(x) for x in r.out.split(b"\0")[:-1])
        got = [x[2:] if x.startswith("./") else x for x in got]
        chk.evaluations += 1; chk.events += len(allf)
        if r.status != st or got != sorted(exp): chk.violation("%s %s" % (" ".join(args), opts), "expected %r status %d, got %r\n%s" % (sorted(exp), st, got, r.brief()))
        else: chk.distinct.add(tuple(args))
    M = ["-mindepth", "1"]
    zero = {"e0", ".dot", "..dd", "a.b", "dfull/x", "dhid/.only"}
    check(M + ["-empty"], {"dempty", "dfull/sub", ".hid/.h2", ".hid/v"} | zero)
    check(["-L", *M, "-empty"], {"dempty", "dfull/sub", ".hid/.h2", ".hid/v", "ld"} | zero)
    check([*M, "-empty", "-type", "d"], {"dempty", "dfull/sub", ".hid/.h2", ".hid/v"})
    for lim in (32, 48): check(M + ["-empty"], {"dempty", "dfull/sub", ".hid/.h2", ".hid/v"} | zero, ["rule getdents 1 0 L%d *" % lim])
    check(M + ["-hidden"], {f for f in allf if os.path.basename(f).startswith(".")})
    check(["-hidden"], {f for f in allf if os.path.basename(f).startswith(".")})
    check(M + ["-samefile", "e1"], {"e1", "hl"}); check(M + ["-samefile", "hl"], {"e1", "hl"}); check(M + ["-samefile", "ln"], {"ln"})
    check(["-L", *M, "-samefile", "e1"], {"e1", "hl", "ln"}); check(["-L", *M, "-samefile", "ln"], {"e1", "hl", "ln"}); check(["-H", *M, "-samefile", "ln"], {"e1", "hl"})
    check(["-L", *M, "-samefile", "broken"], {"broken"})
    check(M + ["-samefile", "cp"], {"cp"})
    check(M + ["-samefile", "e1"], {"e1"}, ["nouring", "attr dev=7 hl"])
    check(M + ["-samefile", "nope"], set(), st=1)
    check(M + ["-type", "l", "-xtype", "f"], {"ln"}); check(M + ["-type", "l", "-xtype", "d"], {"ld"}); check(M + ["-type", "l", "-xtype", "l"], {"broken"})
    check(["-L", *M, "-xtype", "l"], {"ln", "ld", "broken"}); check(["-L", *M, "-type", "l"], {"broken"})
    check(M + ["-xtype", "p"], {"fifo"})
    # access by an unprivileged user, every combination of the owner/group/other bits
    os.mkdir(p("acc")); accd = p("acc"); os.chmod(accd, 0o755)
    modes = range(0, 0o1000, 1 if THOROUGH else 5)
    for m in modes:
        for n, (u, g) in {"u": (12345, 0), "g": (0, 12345), "o": (0, 0)}.items():
            f = os.path.join(accd, "%s%03o" % (n, m)); os.close(os.open(f, os.O_CREAT)); os.chown(f, u, g); os.chmod(f, m)
    for t, bit in (("-readable", 4), ("-writable", 2), ("-executable", 1)):
        exp = set()
        for m in modes:
            for n, sh in (("u", 6), ("g", 3), ("o", 0)):
                if m >> sh & bit: exp.add("acc/%s%03o" % (n, m))
        check(["acc", *M, t], exp, ["uid 12345"])
        check(["acc", *M, "!", t], {"acc/%s%03o" % (n, m) for m in modes for n in "ugo"} - exp, ["uid 12345"])

def mkgroup(i, g):
    name, files, cmds, o = g
    base = os.path.join(RAM, "g%d" % i); os.mkdir(base)
    for f in files:
        q = os.path.join(base, f)
        if "/" in f: os.makedirs(os.path.dirname(q), exist_ok=True)
        if (o.get("dirs") or o.get("kinds")) and f[0] == "d": os.mkdir(q)
        elif o.get("kinds") and f[0] == "l": os.symlink("nowhere", q)
        else: os.close(os.open(q, os.O_CREAT | os.O_WRONLY))

def main(chk):
    global BFSX, RAM, GROUPS
    b = vc.Build(cflags="-g -O2")
    BFSX = b.bfsx()
    RAM = vc.ramscratch("attr")
    GROUPS = groups()
    jobs = []
    for i, g in enumerate(GROUPS):
        mkgroup(i, g)
        for lo in range(0, len(g[2]), 400): jobs.append((i, lo, lo + 400, []))
        # The same files as a kernel without statx() shows them
        for lo in range(0, len(g[2]), 400): jobs.append((i, lo, lo + 400, [], "nostatx"))
        if THOROUGH:
            for lo in range(0, len(g[2]), 400): jobs += [(i, lo, lo + 400, ["-O0"]), (i, lo, lo + 400, ["-S", "dfs", "-O1"])]
    vc.parallel(jobs, work, chk, winit)
    special(chk)

vc.main("C07", "model_checking", "every test of the listed kinds with every argument of a grid (all forms, units, boundary values, symbolic modes by grammar up to three actions, malformed arguments) on every file of a grid of attribute values placed around each boundary; states: files; transitions: test evaluations compared; non-trivial: commands with a non-empty expected match set", main,
        ["File attributes beyond what can be set are supplied by a substituted statx()"])
