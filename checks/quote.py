#!/usr/bin/env python3
"""C17: every string up to a length over an alphabet of special, control and multibyte characters, quoted by bfs and read back by the shell and by xargs."""
import sys, os, itertools, subprocess, ctypes, re, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vc

THOROUGH = vc.TIER == "thorough"
PR = [c.encode() for c in "|&;<>()$`\\\"' *?[]#~=%!{},-^:a/.+@0x"]
CT = [b"\n", b"\t", b"\x01", b"\x1b", b"\x7f", b"\r", b"\v", b"\b"]
MB = ["é".encode(), "中".encode(), "\u200b".encode(), "\u0085".encode(), "\u0301".encode(), "\U0001f600".encode(), b"\xff", b"\x80", b"\xe4\xb8", b"\xc3", b"\xed\xa0\x80"]
ALPHA = PR + CT + MB
LOCALES = ["C", "C.UTF-8"]
libc = ctypes.CDLL(None)

def env(loc): return dict(vc.BASE_ENV, LC_ALL=loc)

def printable(s, loc, space=False):
    """Is everything in s printable in this locale?"""
    if loc == "C": return all(32 <= c < 127 or space and c in b"\t\n\v\f\r" for c in s)
    try: t = s.decode("utf-8")
    except UnicodeDecodeError: return False
    return all(libc.iswprint(ctypes.c_uint(ord(c))) or space and libc.iswspace(ctypes.c_uint(ord(c))) for c in t)

def winit(st):
    st["srv"] = vc.Server(BFSX)
    st["dir"] = os.path.join(RAM, "w%d" % os.getpid()); os.mkdir(st["dir"])
    libc.setlocale(6, b"C.UTF-8")

BASH = b"shopt -s nullglob extglob dotglob; set -f +f; eval \"set -- $(cat /dev/fd/0; printf x)\"; printf '%s\\0' \"$@\""
def shread(words, loc, shell):
    """Words as the shell reads them."""
    if shell == "bash": cmd = ["bash", "--norc", "-c", "shopt -s nullglob extglob dotglob; f=$(cat; printf x); eval \"set -- ${f%x}\"; printf '%s\\0' \"$@\""]
    else: cmd = ["dash", "-c", "f=$(cat; printf x); eval \"set -- ${f%x}\"; printf '%s\\0' \"$@\""]
    p = subprocess.run(cmd, input=words, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(loc), cwd=GLOBDIR)
    return p.stdout.split(b"\0")[:-1]

def quoted(job):
    """One command line with many arguments, rejected and echoed."""
    strs, loc = job
    st = vc.wstate()
    out = dict(evals=len(strs), states=1, events=sum(map(len, strs)), distinct=sum(not s.isalnum() for s in strs), violations=[])
    args = []
    for s in strs: args += ["-name", s]
    def go():
        r = st["srv"].run([*args, "-bogus"], st["dir"], env=env(loc))
        if r.sig is not None or r.timeout: return r, "crash or hang"
        if r.status == 0: return r, "accepted"
        line = r.err.split(b"\n")[0]
        pre = b"bfs: error: "
        if not line.startswith(pre): return r, "no message"
        line = line[len(pre):]
        if not printable(line, loc): return r, "an unprintable character in the message"
        for sh in ("bash", "dash"):
            if sh == "dash" and b"$'" in line: continue
            got = shread(line, loc, sh)
            want = [b"bfs", *[vc._b(a) for a in args], b"-bogus"]
            if got != want:
                k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                return r, "%s reads back %r instead of %r (argument %d)" % (sh, got[k:k + 1], want[k:k + 1], k)
        return r, None
    r, w = go()
    if w:
        # find a single string that fails
        if len(strs) > 1:
            for s in strs:
                o = quoted(([s], loc))
                if o["violations"]: out["violations"] += o["violations"]; return out
        out["violations"].append(("%s: quoting %r in locale %s" % (w, strs[:3], loc), r.brief()))
    return out

DOL = re.compile(rb"\\(?:x([0-9A-Fa-f]{2})|(.))", re.S)
ESC = {b"a": b"\a", b"b": b"\b", b"e": b"\x1b", b"f": b"\f", b"n": b"\n", b"r": b"\r", b"t": b"\t", b"v": b"\v", b"'": b"'", b"\\": b"\\"}
def undollar(s):
    if not (s.startswith(b"$'") and s.endswith(b"'") and len(s) >= 3): return None
    try: return DOL.sub(lambda m: bytes([int(m[1], 16)]) if m[1] else ESC[m[2]], s[2:-1])
    except KeyError: return None

def files(job):
    """A directory of files with such names: printed raw, coloured, for xargs."""
    names, loc = job
    st = vc.wstate()
    st["n"] = st.get("n", 0) + 1
    d = os.path.join(os.fsencode(st["dir"]), b"d%d" % st["n"]); os.mkdir(d)
    for n in names: os.close(os.open(d + b"/" + n, os.O_WRONLY | os.O_CREAT, 0o644))
    out = dict(evals=0, states=1, events=0, distinct=0, violations=[])
    e = env(loc); srv = st["srv"]
    want = sorted(b"./" + n for n in names)
    base = ["-s", ".", "-mindepth", "1"]
    def bad(what, r): out["violations"].append(("%s (locale %s, %d names such as %r)" % (what, loc, len(names), names[:2]), r.brief()))
    def note(n): out["evals"] += n; out["events"] += n; out["distinct"] += n
    # raw
    r = srv.run([*base, "-print0"], d, env=e); note(len(names))
    if r.out != b"".join(p + b"\0" for p in want) or r.status or r.err: bad("-print0 does not print the names unchanged", r)
    r = srv.run([*base, "-print"], d, env=e); note(len(names))
    if r.out != b"".join(p + b"\n" for p in want) or r.status or r.err: bad("-print does not print the names unchanged", r)
    r = srv.run([*base, "-fprint0", b"/dev/stdout"], d, env=e); note(len(names))
    if r.out != b"".join(p + b"\0" for p in want) or r.status or r.err: bad("-fprint0 does not print the names unchanged", r)
    # -printx
    for args in (["-printx"], ["-fprint", "/dev/null", "-printx"]):
        r = srv.run([*base, *args], d, env=e); note(len(names))
        p = subprocess.run(["xargs", "-s", "120000", "printf", "%s\\0"], input=r.out, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env("C"))
        if r.status or r.err or p.returncode or sorted(p.stdout.split(b"\0")[:-1]) != want:
            g = set(p.stdout.split(b"\0")[:-1])
            bad("xargs reads %r from -printx, not %r; %r" % (sorted(g - set(want))[:3], sorted(set(want) - g)[:3], p.stderr[:80]), r)
    # -X
    r = srv.run(["-X", *base], d, env=e); note(len(names))
    safe = [p for p in want if not any(c in b" \t\n'\"\\" for c in p)]
    p = subprocess.run(["xargs", "-s", "120000", "printf", "%s\\0"], input=r.out, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env("C"))
    got = p.stdout.split(b"\0")[:-1] if r.out else []
    if sorted(got) != safe: bad("-X: xargs reads %r too much, %r missing" % (sorted(set(got) - set(safe))[:3], sorted(set(safe) - set(got))[:3]), r)
    elif (r.status != 0) != (len(safe) != len(want)) or r.err.count(b"safe for xargs") != len(want) - len(safe): bad("-X: exit status %r with %d unsafe names" % (r.status, len(want) - len(safe)), r)
    # colours, one record per line: \x02 is not in any name
    r = srv.run([*base, "-color", "-printf", "%p\\002"], d, env=dict(e, LS_COLORS="fi=33:di=34:or=31:mi=31:ex=32:rs=0")); note(len(names))
    recs = r.out.split(b"\x02")[:-1]
    if len(recs) != len(want) or r.status: bad("-color -printf: %d records instead of %d" % (len(recs), len(want)), r)
    for rec, w in zip(recs, want):
        m = re.fullmatch(rb"\x1b\[34m\./\x1b\[0m\x1b\[33m(.*)\x1b\[0m", rec, re.S)
        n = w[2:]
        if not m: bad("coloured name %r for %r" % (rec, n), r); break
        if printable(n, loc, True): ok = m[1] == n
        else: ok = undollar(m[1]) == n and printable(m[1], loc, True)
        if not ok: bad("coloured name %r for %r" % (m[1], n), r); break
    # without colours nothing is escaped
    r = srv.run([*base, "-printf", "%p\\002%f\\002%h\\002%P\\002"], d, env=e); note(len(names))
    if r.out != b"".join(p + b"\x02" + p[2:] + b"\x02.\x02" + p[2:] + b"\x02" for p in want): bad("-printf %p%f%h%P does not print the names unchanged", r)
    shutil.rmtree(d)
    return out

def messages(job):
    """Names quoted in messages about output files and loops."""
    names, loc = job
    st = vc.wstate(); srv = st["srv"]
    st["n"] = st.get("n", 0) + 1
    d = os.path.join(os.fsencode(st["dir"]), b"m%d" % st["n"]); os.mkdir(d)
    out = dict(evals=0, states=1, events=0, distinct=0, violations=[])
    for n in names:
        for kind in ("file", "loop", "output"):
            if kind == "loop":
                os.mkdir(d + b"/" + n); os.symlink(b".", d + b"/" + n + b"/l")
                r = srv.run(["-L", b"./" + n, "-false"], d, env=env(loc))
                os.unlink(d + b"/" + n + b"/l"); os.rmdir(d + b"/" + n)
                m = re.search(rb"loop back to (.*)\n$", r.err, re.S); want = b"./" + n
            elif kind == "output":
                os.symlink(b"/dev/full", d + b"/" + n)
                r = srv.run([".", "-maxdepth", "0", "-fprint", b"./" + n], d, env=env(loc))
                os.unlink(d + b"/" + n)
                m = re.search(rb"^bfs: error: (.*): No space left on device\.\n$", r.err, re.S); want = b"./" + n
            else:
                r = srv.run([".", "-newer", b"./" + n], d, env=env(loc))
                m = re.search(rb"^bfs: error: (.*)\n.*~", r.err, re.S); want = None
                if m: m = re.match(rb"(.*)", m[1])
            out["evals"] += 1; out["distinct"] += 1; out["events"] += len(n)
            bad = None
            if r.sig is not None or r.status == 0 or not m: bad = "no such message"
            elif not printable(m[1], loc): bad = "an unprintable character in %r" % m[1]
            else:
                got = shread(m[1], loc, "bash")
                if got != (want and [want] or [b"bfs", b".", b"-newer", b"./" + n]): bad = "bash reads back %r" % got
            if bad: out["violations"].append(("%s: message about %s %r in locale %s" % (bad, kind, n, loc), r.brief()))
    shutil.rmtree(d)
    return out

def work(j): return {"q": quoted, "f": files, "m": messages}[j[0]](j[1:])

def chunks(l, n): return [l[i:i + n] for i in range(0, len(l), n)]

def main(chk):
    global BFSX, RAM, GLOBDIR
    b = vc.Build(cflags="-g -O1"); BFSX = b.bfsx()
    RAM = vc.ramscratch("quo")
    GLOBDIR = os.path.join(RAM, "glob"); os.mkdir(GLOBDIR)
    for n in ("a", "b", ".h", "-a", "ab", "{", "0"): open(os.path.join(GLOBDIR, n), "w").close()
    libc.setlocale(6, b"C.UTF-8")
    strs = [b""] + [bytes([c]) for c in range(1, 256)]
    strs += [b"".join(t) for n in (2, 3) for t in itertools.product(ALPHA, repeat=n)]
    SMALL = [b"'", b"\\", b"!", b"$", b" ", b"\n", b"\xc3", b"\xa9", b"a"]
    strs += [b"".join(t) for t in itertools.product(SMALL, repeat=5 if THOROUGH else 4)]
    # around the lengths at which several bytes are looked at together
    for n in range(1, 34):
        for c in (b"\xc3\xa9", b"\xff", b"\x01", b"'", b" ", b"!"):
            strs += [b"a" * n + c, c + b"a" * n, b"a" * n + c + b"a" * 9]
    strs = [s for s in dict.fromkeys(strs) if b"\0" not in s]
    chk.extra["strings"] = len(strs)
    jobs = [("q", c, l) for l in LOCALES for c in chunks(strs, 400)]
    names = [s for s in strs if s and b"/" not in s and b"\x02" not in s and s not in (b".", b"..") and (len(s) < 3 or len(s) > 4 or all(x in b"'\"\\ \n\t$`!\x1b\xffa\xc3\xa9" for x in s))]
    chk.extra["names"] = len(names)
    jobs += [("f", c, l) for l in LOCALES for c in chunks(names, 300)]
    ms = [s for s in names if len(s) <= 2 and (len(s) == 1 or all(x in b"'\"\\ \n$!a\xff\x1b~*" for x in s))] + [b"a b'c", b"\xc3\xa9\n", b"-x", b"\xe4\xb8\xad"]
    jobs += [("m", c, l) for l in LOCALES for c in chunks(ms, 20)]
    vc.parallel(jobs, work, chk, winit)

vc.main("C17", "model_checking", "every single byte and every string of up to three tokens over %d special, control and multibyte tokens (and longer ones over a smaller alphabet), as command-line argument, file name and output file, in two locales; messages read back by bash and dash, -printx and -X by xargs, coloured names decoded" % len(ALPHA), main,
        ["bash, dash and xargs as installed are the readers", "what is printable is what the C library says for the locale"])
