"""Shared machinery of the checks: build from /repo, run executions, report."""
import atexit, json, pickle, select, multiprocessing as mp, os, shutil, signal, struct, subprocess, sys, tempfile, time, errno as _errno

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = os.path.join(VERIF, "lib")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NCPU = min(8, os.cpu_count() or 1)
T0 = time.time()

_scratch = []
_main_pid = os.getpid()
def _cleanup():
    if os.getpid() != _main_pid: return
    for d in _scratch:
        subprocess.run(["chmod", "-R", "u+rwx", d], stderr=subprocess.DEVNULL)
        shutil.rmtree(d, ignore_errors=True)
atexit.register(_cleanup)
def _term(sig, frame):
    sys.exit(3)
signal.signal(signal.SIGTERM, _term)

def scratch(prefix="vc", base=None):
    base = base or "/tmp"
    d = tempfile.mkdtemp(prefix="verif-%s-" % prefix, dir=base)
    os.chmod(d, 0o755)
    _scratch.append(d)
    return d

def ramscratch(prefix="vc"):
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
    return scratch(prefix, base)

class BuildError(Exception): pass

def copy_sources(dst):
    """Copy /repo's working tree (tracked and new, not ignored) to dst."""
    files = subprocess.run(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-z", "-co", "--exclude-standard"],
                           stdout=subprocess.PIPE, check=True).stdout.split(b"\0")
    for f in files:
        if not f: continue
        s = os.path.join(os.fsencode(REPO), f)
        if not os.path.lexists(s) or f.startswith((b"tests/bfs/", b"tests/posix/", b"tests/gnu/", b"tests/bsd/", b"tests/common/", b"docs/", b"completions/")):
            continue
        d = os.path.join(os.fsencode(dst), f)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        shutil.copy2(s, d, follow_symlinks=False)

def sh(cmd, cwd=None, env=None, what="command"):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        sys.stdout.buffer.write(p.stdout[-4000:])
        raise BuildError("%s failed: %s" % (what, cmd if isinstance(cmd, str) else " ".join(map(str, cmd))))
    return p.stdout

class Build:
    """bfs configured and compiled in a scratch copy of /repo's working tree."""
    def __init__(self, cflags="-g -O1 -Wall", configure=(), cc="gcc", tag="plain", objs_only=False):
        self.dir = scratch("build-" + tag)
        copy_sources(self.dir)
        env = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "HOME": "/root", "LC_ALL": "C.UTF-8",
               "MAKEFLAGS": "-j%d" % NCPU}
        self.env = env
        self.cc = cc
        self.cflags = cflags
        sh(["./configure", "CC=" + cc, "CFLAGS=" + cflags, *configure], cwd=self.dir, env=env, what="configure")
        if objs_only:
            srcs = sorted(f[:-2] for f in os.listdir(os.path.join(self.dir, "src")) if f.endswith(".c"))
            sh(["make", "-j%d" % NCPU, *("obj/src/%s.o" % s for s in srcs)], cwd=self.dir, env=env, what="make")
        else:
            sh(["make", "-j%d" % NCPU, "bin/bfs"], cwd=self.dir, env=env, what="make")
        self.bfs = os.path.join(self.dir, "bin/bfs")
        self.objs = sorted(os.path.join(self.dir, "obj/src", o) for o in os.listdir(os.path.join(self.dir, "obj/src")) if o.endswith(".o"))
        self.ldlibs = self._var("LDLIBS")
        self.cppflags = self._var("CPPFLAGS")
        self.allcflags = self._var("CFLAGS")
        self.ldflags = self._var("LDFLAGS")

    def _var(self, name):
        mk = "include gen/config.mk\nall:\n\t@printf '%s' '${" + "_" + name + "}'\n"
        p = subprocess.run(["make", "-s", "-f", "-", "all"], input=mk.encode(), cwd=self.dir, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return p.stdout.decode().split()

    def libobjs(self, exclude=("main.o",)):
        return [o for o in self.objs if os.path.basename(o) not in exclude]

    def harness(self, name, srcs, extra=(), exclude=("main.o",), libs=(), cflags=None):
        out = os.path.join(self.dir, name)
        srcs = [s if s.startswith("/") else os.path.join(LIB, s) for s in srcs]
        sh([self.cc, "-I", os.path.join(self.dir, "src"), "-I", os.path.join(self.dir, "gen"), "-I", LIB]
           + [f for f in self.cppflags] + ["-std=gnu17"] + (cflags if cflags is not None else self.cflags.split())
           + ["-o", out, *srcs, *self.libobjs(exclude), *extra, *self.ldflags, *self.ldlibs, *libs], cwd=self.dir, what="harness build")
        return out

    def bfsx(self):
        m = os.path.join(self.dir, "obj/bfs_main.o")
        sh(["objcopy", "--redefine-sym", "main=bfs_main", os.path.join(self.dir, "obj/src/main.o"), m])
        out = os.path.join(self.dir, "bfsx")
        wraps = ["-Wl,--wrap=" + s for s in ("malloc", "calloc", "realloc", "posix_memalign", "aligned_alloc", "strdup", "strndup")]
        xo = os.path.join(self.dir, "obj/bfsx.o")
        san = [f for f in self.cflags.split() if f.startswith("-fsanitize")]
        sh([self.cc, "-g", "-O1", "-c", "-o", xo, os.path.join(LIB, "bfsx.c")], what="bfsx compile")
        sh([self.cc, "-g", *san, *wraps, "-o", out, xo, m, *self.libobjs(), *self.ldflags, *self.ldlibs, "-ldl", "-lpthread"], what="bfsx link")
        return out

CLS = ["open", "getdents", "stat", "readlink", "close", "unlink", "access", "spawn", "malloc", "xattr", "dup", "thread", "pipe", "exec", "chdir", "wait", "pwent", "flush", "write", "fclose"]

class Res:
    __slots__ = ("status", "sig", "timeout", "orphans", "out", "err", "trace", "hits", "calls", "argv")
    def lines(self, sep=b"\n"):
        assert not self.out or self.out.endswith(sep), self.out
        return self.out.split(sep)[:-1] if self.out else []
    def brief(self):
        return "status=%s sig=%s timeout=%s out=%r err=%r" % (self.status, self.sig, self.timeout, self.out[:600], self.err[:600])

BASE_ENV = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "TZ": "UTC0", "HOME": "/nonexistent"}

def _b(s): return s if isinstance(s, bytes) else str(s).encode("utf-8", "surrogateescape")

class Server:
    def __init__(self, path):
        self.path = path
        self.p = None
        self.n = 0
    def start(self):
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:abort_on_error=1:handle_abort=0"
        env["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:print_stacktrace=1"
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=1 << 16, env=env)
    def run(self, args, cwd, env=None, opts=(), name="bfs", retry=True):
        """One execution.  A timed-out execution is repeated alone with a much longer limit before it is believed."""
        r = self.run1(args, cwd, env, opts, name)
        if r.timeout and retry:
            # (once two such are confirmed, there is a violation anyway and no more time is spent)
            if getattr(self, "hangs", 0) < 2:
                r = self.run1(args, cwd, env, [*opts, "timeout 30000"], name)
                if r.timeout: self.hangs = getattr(self, "hangs", 0) + 1
        return r
    def run1(self, args, cwd, env=None, opts=(), name="bfs"):
        if self.p is None: self.start()
        e = BASE_ENV if env is None else env
        w = []
        def fld(b):
            b = _b(b); w.append(struct.pack("<I", len(b))); w.append(b)
        argv = [name, *args]
        w.append(struct.pack("<I", len(argv)))
        for a in argv: fld(a)
        w.append(struct.pack("<I", len(e)))
        for k, v in e.items(): fld(_b(k) + b"=" + _b(v))
        fld(cwd)
        w.append(struct.pack("<I", len(opts)))
        for o in opts: fld(o)
        f = self.p.stdin
        f.write(b"".join(w)); f.flush()
        g = self.p.stdout
        def rd(n):
            d = g.read(n)
            if len(d) != n: raise RuntimeError("bfsx server died (%s)" % self.p.poll())
            return d
        def u(): return struct.unpack("<I", rd(4))[0]
        r = Res()
        st, r.timeout, r.orphans = u(), u(), u()
        r.status = os.WEXITSTATUS(st) if os.WIFEXITED(st) else None
        r.sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else None
        r.out = rd(u()); r.err = rd(u()); r.trace = rd(u())
        r.hits = [u() for _ in range(u())]
        r.calls = dict(zip(CLS, [u() for _ in range(u())]))
        r.argv = argv
        self.n += 1
        return r
    def batch(self, argvs, cwd, env=None, opts=(), name="bfs"):
        """Many executions in one child process, without a fork for each.  -> list of Res (status, sig, timeout, out, err)."""
        if self.p is None: self.start()
        e = BASE_ENV if env is None else env
        w = [struct.pack("<II", 0xffffffff, len(argvs))]
        pk = struct.Struct("<I").pack
        for args in argvs:
            w.append(pk(len(args) + 1))
            for a in (name, *args):
                a = _b(a); w.append(pk(len(a))); w.append(a)
        w.append(pk(len(e)))
        for k, v in e.items():
            a = _b(k) + b"=" + _b(v); w.append(pk(len(a))); w.append(a)
        a = _b(cwd); w.append(pk(len(a))); w.append(a)
        w.append(pk(len(opts)))
        for o in opts:
            a = _b(o); w.append(pk(len(a))); w.append(a)
        self.p.stdin.write(b"".join(w)); self.p.stdin.flush()
        g = self.p.stdout
        n = g.read(4)
        if len(n) != 4: raise RuntimeError("bfsx server died (%s)" % self.p.poll())
        n, = struct.unpack("<I", n)
        d = g.read(n)
        out = []; o = 0
        for args in argvs:
            st, to, ol, el = struct.unpack_from("<IIII", d, o); o += 16
            r = Res()
            r.status = os.WEXITSTATUS(st) if os.WIFEXITED(st) else None
            r.sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else None
            r.timeout = to; r.orphans = 0
            r.out = d[o:o + ol]; o += ol
            r.err = d[o:o + el]; o += el
            r.argv = [name, *args]
            out.append(r)
        self.n += len(argvs)
        return out
    def stop(self):
        if self.p:
            self.p.stdin.close(); self.p.wait(); self.p = None

def rule(cls, path, frm, to, act, arg):
    return b"rule %s %d %d %s%d %s" % (_b(cls), frm, to, _b(act), arg, _b(path))

def E(name): return getattr(_errno, name)

# ---------------------------------------------------------------- reporting

class Violation(Exception):
    pass

class Check:
    """Collects coverage and violations of one property, writes the evidence."""
    def __init__(self, pid, level, technique_rule, assumptions=(), exhaustive=True):
        self.pid = pid; self.level = level; self.rule = technique_rule
        self.assumptions = list(assumptions)
        self.evaluations = 0
        self.distinct = set()
        self.ndistinct = 0
        self.states = 0
        self.events = 0
        self.samples = []
        self.extra = {}
        self.violations = []
        self.exhaustive = exhaustive
        self.deadline = T0 + float(os.environ.get("VERIF_BUDGET", "780" if TIER == "quick" else "7200"))
        self.truncated = False
    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)
    def violation(self, what, detail):
        self.violations.append((what, detail))
    def known(self):
        f = os.path.join(VERIF, "known-findings.txt")
        out = []
        if os.path.exists(f):
            for l in open(f, encoding="utf-8", errors="replace"):
                if l.startswith("known: "):
                    d = json.loads(l[7:])
                    if d.get("property") == self.pid: out.append(d)
        return out
    def finish(self):
        cov = {"exhaustive": bool(self.exhaustive and not self.truncated), "samples": self.samples or ["(none)"], "rule": self.rule}
        if self.level == "model_checking":
            cov["states"] = int(self.states)
            cov["transitions"] = int(self.events)
            cov["traces_validated_against_impl"] = int(self.evaluations)
        else:
            cov["evaluations"] = int(self.evaluations)
        cov["distinct_nontrivial"] = int(self.ndistinct + len(self.distinct))
        cov.update(self.extra)
        known = self.known()
        new = []
        for what, detail in self.violations:
            k = next((d for d in known if d["match"] in what), None)
            if k is not None:
                k["seen"] = True
            else:
                new.append((what, detail))
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        for d in known:
            if d.get("seen"): print("KNOWN-FINDING: property=%s %s" % (self.pid, d["what"]))
        print("%s: %d executions, %d distinct non-trivial, %.1f s%s" % (self.pid, self.evaluations, cov["distinct_nontrivial"], time.time() - T0,
              " (TRUNCATED by time budget)" if self.truncated else ""))
        for k, v in self.extra.items(): print("  %s: %s" % (k, v))
        if new:
            d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%d.txt" % (self.pid, os.getpid()))
            with open(path, "w") as f:
                f.write("property %s: %d violation(s) on the current tree\n\n" % (self.pid, len(new)))
                for what, detail in new[:50]:
                    f.write("== %s\n%s\n\n" % (what, detail))
            for what, detail in new[:5]: print("  violated: %s" % what)
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            sys.stdout.flush()
            return 1
        return 0

def main(pid, level, rule, fn, assumptions=()):
    chk = Check(pid, level, rule, assumptions)
    try:
        fn(chk)
    except BuildError as e:
        # The tree does not build: the check cannot give an answer.
        print("ERROR: %s" % e); sys.exit(2)
    sys.exit(chk.finish())

# ---------------------------------------------------------------- parallel map

def parallel(jobs, worker, chk, init=None, nproc=None, stop_after=10, chunk=1):
    """worker(job) -> dict(evals=int, distinct=iterable of hashables or int, violations=[(what, detail)], samples=[...]).
    Runs the jobs on all cores, merging results into chk.  Jobs must be picklable/forkable by index."""
    global _tally, _limit, _deadline
    jobs = list(jobs)
    nproc = min(nproc or NCPU, max(1, len(jobs)))
    _tally = mp.get_context("fork").Array("i", 2); _limit = stop_after; _deadline = chk.deadline
    # Plain fork() from a single-threaded parent, one pair of pipes per worker.
    sys.stdout.flush(); sys.stderr.flush()
    workers = {}
    try:
        for _ in range(nproc):
            jr, jw = os.pipe(); rr, rw = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    for w in workers.values(): os.close(w[1]); os.close(w[0])
                    os.close(jw); os.close(rr)
                    _serve(jobs, worker, init, jr, rw)
                finally: os._exit(0)
            os.close(jr); os.close(rw)
            workers[rr] = (rr, jw, pid, bytearray())
        nxt = done = 0
        def feed(w):
            nonlocal nxt
            if nxt < len(jobs): os.write(w[1], struct.pack("<I", nxt)); nxt += 1
        for _ in range(2):
            for w in workers.values(): feed(w)
        while done < len(jobs):
            ready, _, _ = select.select(list(workers), [], [], 5)
            stop = False
            for fd in ready:
                w = workers[fd]; buf = w[3]
                d = os.read(fd, 1 << 20)
                if not d: raise RuntimeError("a worker died")
                buf += d
                while len(buf) >= 4:
                    n, = struct.unpack_from("<I", buf)
                    if len(buf) < 4 + n: break
                    r = pickle.loads(bytes(buf[4:4 + n])); del buf[:4 + n]
                    feed(w)
                    done += 1
                    if isinstance(r, BaseException): raise r
                    if r.get("skipped"): chk.truncated = True; continue
                    chk.evaluations += r.get("evals", 0)
                    chk.states += r.get("states", 0)
                    chk.events += r.get("events", 0)
                    d = r.get("distinct", ())
                    if isinstance(d, int): chk.ndistinct += d
                    else: chk.distinct.update(d)
                    for s in r.get("samples", ()): chk.sample(s)
                    for k, v in r.get("extra", {}).items(): chk.extra[k] = chk.extra.get(k, 0) + v
                    for v in r.get("violations", ()): chk.violation(*v)
            if len(chk.violations) >= stop_after: chk.truncated = True; break
            if time.time() > chk.deadline and done < len(jobs):
                chk.truncated = True; chk.extra["jobs_done"] = done; chk.extra["jobs_total"] = len(jobs)
                break
    finally:
        for rr, jw, pid, _ in workers.values():
            os.close(jw); os.close(rr)
            try: os.kill(pid, signal.SIGTERM)
            except OSError: pass
        for _, _, pid, _ in workers.values():
            try: os.waitpid(pid, 0)
            except OSError: pass

def _serve(jobs, worker, init, jr, rw):
    """A worker process: job numbers in, pickled results out."""
    try:
        _winit(init); err = None
    except BaseException as e:
        import traceback
        err = RuntimeError("worker failed to start: %s" % traceback.format_exc())
    while True:
        d = b""
        while len(d) < 4:
            x = os.read(jr, 4 - len(d))
            if not x: return
            d += x
        r = err or _wrun((worker, jobs[struct.unpack("<I", d)[0]]))
        b = pickle.dumps(r)
        b = struct.pack("<I", len(b)) + b
        while b: b = b[os.write(rw, b):]

_wstate = {}
_tally = None; _limit = 10; _deadline = 0
def _winit(init):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    _wstate.clear()
    if init: init(_wstate)
def _wrun(x):
    w, j = x
    # Enough violations (or a few hangs, which are slow) were seen by all workers together: skip the rest
    if _tally is not None and (_tally[0] >= _limit or _tally[1] >= 3 or time.time() > _deadline): return {"skipped": 1}
    try:
        r = w(j)
        v = r.get("violations")
        if v and _tally is not None:
            with _tally.get_lock():
                _tally[0] += len(v); _tally[1] += sum("hang" in x[0] for x in v)
        return r
    except BaseException as e:
        import traceback
        return RuntimeError("worker failed on %r: %s" % (repr(j)[:300], traceback.format_exc()))
def wstate(): return _wstate

# ---------------------------------------------------------------- spy: a command that records how it was run

def build_spy(d):
    out = os.path.join(d, "spy")
    sh(["gcc", "-O1", "-w", "-o", out, os.path.join(LIB, "spy.c")], what="spy")
    return out

def spy_records(data):
    """-> list of (cwd, fds, nofile, args)"""
    out = []; i = 0
    def lstr():
        nonlocal i
        j = data.index(b":", i); n = int(data[i:j]); i = j + 1 + n
        return data[j + 1:i]
    while i < len(data):
        if data[i:i + 2] != b"R ": raise ValueError("bad record %r" % data[i:i + 80])
        i += 2
        cwd = lstr(); i += 1
        j = data.index(b" ", i); fds = data[i:j]; i = j + 1
        j = data.index(b" ", i); nof = int(data[i:j]); i = j + 1
        j = data.index(b" ", i); argc = int(data[i:j]); i = j + 1
        args = [lstr() for _ in range(argc)]
        if data[i:i + 1] != b"\n": raise ValueError("bad record end %r" % data[i:i + 80])
        i += 1
        out.append((cwd, fds, nof, args))
    return out
