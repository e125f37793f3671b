#!/usr/bin/env python3
"""C24: every day of ten thousand years, every offset, every second of a day, local time in many zones, every shape with every
single-byte change, against an independent calendar; and -newerXt/-since at the boundary of every kind of timestamp."""
import sys, os, itertools, subprocess, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vc, model
THOROUGH = vc.TIER == "thorough"

def winit(st): st["srv"] = vc.Server(BFSX)

def harness(job):
    exe, tz, args = job
    out = dict(evals=0, states=0, events=0, distinct=0, violations=[])
    try: p = subprocess.run([exe, *args], env={"TZ": tz}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600 if not THOROUGH else 3600)
    except subprocess.TimeoutExpired:
        out["violations"].append(("hang: %s TZ=%s" % (" ".join(args), tz), "")); return out
    n = None
    for l in p.stdout.decode("latin-1").split("\n"):
        if l.startswith("N "): n, nb = map(int, l.split()[1:])
        elif l.startswith("BAD"): out["violations"].append((l[4:] + " (%s, %s)" % (os.path.basename(exe), args[0]), ""))
    if n is None: out["violations"].append(("crash (exit status %d): %s" % (p.returncode, " ".join(args)), p.stdout.decode("latin-1")[-2000:])); return out
    out["evals"] = out["states"] = out["events"] = out["distinct"] = n
    return out

FIELDS = {"a": "atime", "B": "btime", "c": "ctime", "m": "mtime"}
def cli(job):
    """Files at -1 s, -1 ns, 0, +1 ns, +1 s from the instant."""
    t, x, tz, strs = job
    srv = vc.wstate()["srv"]
    out = dict(evals=0, states=1, events=0, distinct=0, violations=[])
    off = [(-1, 0), (-1, 999999999), (0, 0), (0, 1), (1, 0)]
    opts = ["nouring"]
    for i, (s, ns) in enumerate(off):
        for k, f in FIELDS.items(): opts.append("attr %s=%d.%09d f/%d" % (f, t + s if k == x else t - 5 if i > 2 else t + 5, ns if k == x else 0, i))
    # one attr line per file: merge
    per = {}
    for o in opts[1:]:
        _, kv, p = o.split(" "); per.setdefault(p, []).append(kv)
    opts = ["nouring"] + ["attr %s %s" % (",".join(v), p) for p, v in per.items()]
    want = b"f/3\nf/4\n"
    cmds = []
    for s in strs:
        cmds.append(["f", "-s", "-type", "f", "-newer%st" % x, s])
        if x in "acm": cmds.append(["f", "-s", "-type", "f", {"a": "-asince", "c": "-csince", "m": "-since"}[x], s])
        elif x == "B": cmds.append(["f", "-s", "-type", "f", "-Bsince", s])
    for c, r in zip(cmds, srv.batch(cmds, CWD, env=dict(vc.BASE_ENV, TZ=tz), opts=opts)):
        out["evals"] += 1; out["events"] += 5; out["distinct"] += 1
        if r.status or r.out != want:
            r = srv.run(c, CWD, env=dict(vc.BASE_ENV, TZ=tz), opts=opts)
            if r.status or r.out != want: out["violations"].append(("%r instead of %r (exit status %r): bfs %s, TZ=%s, files around %d" % (r.out, want, r.status, " ".join(c), tz, t), r.brief()))
    return out

def rejects(job):
    strs, = job
    srv = vc.wstate()["srv"]
    out = dict(evals=0, states=1, events=0, distinct=0, violations=[])
    cmds = [["f", p, s] for s in strs for p in ("-newermt", "-newerat", "-since", "-asince", "-csince", "-Bsince", "-newerBt")]
    for c, r in zip(cmds, srv.batch(cmds, CWD, opts=["nouring"])):
        out["evals"] += 1; out["events"] += 1; out["distinct"] += 1
        if r.status in (0, None) or r.out or not r.err: out["violations"].append(("accepted (exit status %r): bfs %r" % (r.status, c), r.brief()))
    return out

def work(j): return {"h": harness, "c": cli, "r": rejects}[j[0]](j[1:])

def main(chk):
    global BFSX, CWD
    b = vc.Build(cflags="-g -O2"); BFSX = b.bfsx()
    exe = b.harness("time_mc", ["time_mc.c"])
    # the code used where there is no timegm()
    alt = os.path.join(b.dir, "obj/xtime-alt.o")
    vc.sh([b.cc, "-I", os.path.join(b.dir, "src"), "-I", os.path.join(b.dir, "gen"), *b.cppflags, "-std=gnu17", "-g", "-O2", "-c", "-o", alt, "-include", "bfs.h", "-DVERIF_ALT", "-x", "c", os.path.join(b.dir, "xtime-alt.c")], cwd=altsrc(b), what="xtime without timegm") if altsrc(b) else None
    exes = [exe]
    if os.path.exists(alt): exes.append(b.harness("time_mc_portable", ["time_mc.c"], extra=[alt], exclude=("main.o", "xtime.o")))
    CWD = os.path.realpath(vc.ramscratch("tm"))
    model.make(os.fsencode(CWD), b"f", ("d", {b"%d" % i: ("f", 0) for i in range(5)}))
    jobs = []
    for e in exes:
        for y in range(0, 10000, 250): jobs.append(("h", e, "UTC0", ["days", str(y), str(y + 250)]))
        jobs.append(("h", e, "UTC0", ["offsets"])); jobs.append(("h", e, "UTC0", ["clock"])); jobs.append(("h", e, "UTC0", ["epoch"])); jobs.append(("h", e, "UTC0", ["cmp"]))
        np = 16
        for i in range(np): jobs.append(("h", e, "UTC0", ["shapes", str(i), str(np)]))
    ZONES = ["UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "<+0545>-5:45", "<-1200>12", "<+14>-14", "LHST-10:30LHDT-11,M10.1.0,M4.1.0", "IST-5:30", "<-01>1", "<+0001>-0:01", "NZST-12NZDT,M9.5.0,M4.1.0/3", "Europe/Berlin", "America/New_York", "Africa/Casablanca", "Asia/Kathmandu"]
    step = 1800 if THOROUGH else 3600
    for z in ZONES:
        for a in range(-2 * 10**9, 4 * 10**9, 5 * 10**8): jobs.append(("h", exe, z, ["local", str(a), str(a + 5 * 10**8), str(step)]))
    # the command line
    def strs(t, tz):
        os.environ["TZ"] = tz; time.tzset()
        out = ["@%d" % t]
        for o in (0, 60, -60, 330, -210, 765, -720):
            g = time.gmtime(t + o * 60)
            if not 0 < g.tm_year < 10000: continue
            z = ["Z"] if o == 0 else []
            z += ["%s%02d:%02d" % ("-" if o < 0 else "+", abs(o) // 60, abs(o) % 60), "%s%02d%02d" % ("-" if o < 0 else "+", abs(o) // 60, abs(o) % 60)]
            if o % 60 == 0: z.append("%s%02d" % ("-" if o < 0 else "+", abs(o) // 60))
            for d, h in itertools.product(("%04d-%02d-%02d", "%04d%02d%02d"), ("T%02d:%02d:%02d", " %02d%02d%02d")):
                out += [(d % g[:3]) + (h % g[3:6]) + x for x in z]
        l = time.localtime(t)
        if l.tm_isdst == 0 and time.mktime(l) == t: out += ["%04d-%02d-%02dT%02d:%02d:%02d" % l[:6], "%04d%02d%02d%02d%02d%02d" % l[:6]]
        return out
    TS = [0, -1, 1, 86399, 951782400, 951868800, 1078012800, 1583020800, 1700000000, 1709164800, 2147483647, 2147483648, 4102444800, 4107542400, 253402300799 - 86400, -2208988800, -86400, 68169600, 536457599, 1456704000]
    for t in TS:
        for x in "aBcm":
            for tz in ("UTC0", "EST5EDT,M3.2.0,M11.1.0", "<+0545>-5:45"): jobs.append(("c", t, x, tz, strs(t, tz)))
    os.environ["TZ"] = "UTC0"; time.tzset()
    jobs.append(("r", ["", "@", "now", "1991", "1991-12", "1991-12-", "1991-12-1", "1991-12-14T", "1991-12-14T1", "1991-12-14T10:", "1991-12-14T10:1", "1991-12-14T10:11:", "1991-12-14T10:11:1", "1991-12-14T10:11:12z", "1991-12-14T10:11:12Zx", "1991-12-14T10:11:12+", "1991-12-14T10:11:12+1", "1991-12-14T10:11:12+10:", "1991-12-14T10:11:12+10:3", "1991-12-14T10:11:12+10:300", "1991/12/14", "14-12-1991", "@1x", "@99999999999999999999", " 1991-12-14", "1991-12-14 ", "-1991-12-14", "+1991-12-14", "1991-12-14Z", "1991-12-14+01:00"]))
    vc.parallel(jobs, work, chk, winit)

def altsrc(b):
    """xtime.c as it is compiled where configure finds no timegm()"""
    src = open(os.path.join(b.dir, "src/xtime.c"), encoding="utf-8").read()
    open(os.path.join(b.dir, "xtime-alt.c"), "w", encoding="utf-8").write('#include "bfs.h"\n#undef BFS_HAS_TIMEGM\n#define BFS_HAS_TIMEGM 0\n' + src)
    return b.dir

vc.main("C24", "model_checking", "every day of the years 0000-9999 x ten shapes, every offset, every second of five days, every hour of local time over 190 years in 15 zones and every second around each change of offset, 2816 shapes x every single-byte change, insertion, deletion and prefix, @seconds boundaries; the same with the fallback for systems without timegm(); -newerXt and -since against files one nanosecond either side; independent proleptic Gregorian calendar as oracle", main,
        ["impossible dates (month 13, 30 February, 24:00) are not judged", "local time is checked against the C library's localtime()", "zones that are missing from the system fall back to UTC"])
