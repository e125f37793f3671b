#!/usr/bin/env python3
"""C23: every sequence of child actions up to a length, every PATH, every failing call, on the fork and posix_spawn paths of the real
bfs_spawn(), against the same system calls made in order."""
import sys, os, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vc
THOROUGH = vc.TIER == "thorough"
WRAPS = ["-Wl,--wrap=" + s for s in "pipe pipe2 fork _Fork dup dup2 dup3 fchdir setrlimit execve faccessat sigaction posix_spawn posix_spawnp posix_spawn_file_actions_init posix_spawnattr_init posix_spawn_file_actions_addopen posix_spawn_file_actions_addclose posix_spawn_file_actions_adddup2 posix_spawn_file_actions_addfchdir_np malloc calloc realloc open open64 fcntl fcntl64".split()]

def work(job):
    exe, spy, args = job
    out = dict(evals=0, states=0, events=0, distinct=0, violations=[])
    d = os.path.realpath(vc.ramscratch("sp"))
    for x in ("A", "r", "A/r", "d1", "d2"): os.mkdir(os.path.join(d, x))
    for x in ("f1", "f2", "f3", "A/f1", "A/f2"): open(os.path.join(d, x), "w").write("0123456789\n")
    s = os.path.join(d, "spy"); subprocess.check_call(["cp", spy, s])
    try: p = subprocess.run([exe, d, s, *map(str, args)], env={"PATH": "/bin", "X": "y"}, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=700 if not THOROUGH else 7200)
    except subprocess.TimeoutExpired:
        out["violations"].append(("hang: %s" % " ".join(map(str, args)), "")); return out
    finally: subprocess.call(["rm", "-rf", d])
    o = p.stdout.decode("latin-1").replace(d, "DIR")
    bads = ("\n" + o).split("\nBAD ")[1:]
    n = None
    for l in o.split("\n"):
        if l.startswith("N "): n, st, nb = map(int, l.split()[1:])
    for b in bads: out["violations"].append((b.split("\n")[0], b))
    if n is None: out["violations"].append(("crash (status %d): %s" % (p.returncode, args), o[-2000:] + p.stderr.decode("latin-1")[-2000:])); return out
    out["evals"] = n; out["states"] = out["distinct"] = st; out["events"] = n
    return out

def main(chk):
    b = vc.Build(cflags="-g -O2")
    exe = b.harness("spawn_mc", ["spawn_mc.c"], libs=WRAPS)
    spy = os.path.join(b.dir, "spawn_spy")
    vc.sh(["cc", "-static", "-O1", "-o", spy, os.path.join(vc.LIB, "spawn_spy.c")], what="spy")
    jobs = []
    np = 24
    for lay in range(6):
        depth = 3 if THOROUGH or lay in (0, 2) else 2
        for i in range(np): jobs.append((exe, spy, ["seq", lay, depth, i, np]))
    L = 4 if THOROUGH else 3
    for i in range(np): jobs.append((exe, spy, ["path", i, np, L, 2 if THOROUGH else 1]))
    if not THOROUGH:
        for i in range(4): jobs.append((exe, spy, ["path", i, 4, 2, 2]))
    for i in range(8): jobs.append((exe, spy, ["fault", i, 8]))
    jobs.append((exe, spy, ["exe"]))
    jobs.sort(key=lambda j: j[2][0] == "seq" and j[2][2] < 3)
    vc.parallel(jobs, work, chk)

vc.main("C23", "model_checking", "all sequences of up to three actions out of 34 (close, dup2, open, fchdir, limits; on open, closed and close-on-exec descriptors, and on those an internal pipe would use) x six layouts of free descriptors (two actions for four of them) x fork/posix_spawn, compared with the same system calls made in order; all PATHs of up to three of six components x all contents of the directories; every call that bfs_spawn() makes fails with four errors, in the parent and in the child; programs that can't be started; after every call the caller's descriptors, limits, directory, signal mask and children are compared", main,
        ["closing a descriptor that isn't open may be an error or not (posix_spawn ignores it)", "dup2 of a descriptor to itself is not judged", "which of ENOENT and EACCES is reported when nothing on the PATH can be run is not judged", "failing pthread_sigmask() is not injected (bfs aborts by design)"])
