"""Build and run harnesses under the controlled scheduler (mcs.c)."""
import json, os, subprocess
import vc

WRAPS = """malloc calloc realloc free posix_memalign aligned_alloc strdup strndup memcpy memmove memset abort
pthread_create pthread_join pthread_detach pthread_self pthread_setname_np pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock
pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_signal pthread_cond_broadcast
pthread_once sem_init sem_destroy sem_post sem_wait sem_trywait statx getdents64 openat close""".split()
CFLAGS = "-g -O1 -fsanitize=thread -U__SANITIZE_THREAD__ -Wno-tsan -fno-omit-frame-pointer"

def build(name, harness, extra_wraps=(), exclude=("main.o",), b=None):
    b = b or vc.Build(cflags=CFLAGS, tag="mcs", objs_only=True)
    objs = []
    for s in ("mcs.c", "mcs_uring.c", harness + ".c"):
        o = os.path.join(b.dir, s + ".o")
        vc.sh([b.cc, "-I", os.path.join(b.dir, "src"), "-I", os.path.join(b.dir, "gen"), "-I", vc.LIB, *b.cppflags, "-std=gnu17",
               "-g", "-O1", "-fno-builtin-memcpy", "-w", "-c", "-o", o, os.path.join(vc.LIB, s)], cwd=b.dir, what="harness compile")
        objs.append(o)
    out = os.path.join(b.dir, name)
    wr = ["-Wl,--wrap=" + w for w in (*WRAPS, *extra_wraps)]
    ld = [f for f in b.ldflags if not f.startswith("-fsanitize")]
    vc.sh([b.cc, "-g", "-no-pie", "-rdynamic", *wr, "-o", out, *objs, *b.libobjs(exclude), *ld, *b.ldlibs, "-ldl", "-lpthread"], cwd=b.dir, what="harness link")
    return b, out

def run(path, args, K, part=0, nparts=1, limit=None, maxex=None, spurious=1, freecost=0):
    cmd = [path, "-k", str(K), "-p", "%d/%d" % (part, nparts), "-s", str(spurious), "-f", str(freecost)]
    if limit: cmd += ["-t", str(limit)]
    if maxex: cmd += ["-m", str(maxex)]
    cmd += ["--", *map(str, args)]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=(limit or 3000) + 120)
    out = p.stdout.decode("utf-8", "replace")
    if p.returncode == 0 and "MCS-OK" in out:
        return json.loads(out[out.index("MCS-OK") + 7:].split("\n")[0]), None
    if p.returncode == 1 and "MCS-VIOLATION" in out:
        i = out.index("MCS-VIOLATION")
        txt = out[i + 14:]
        return None, (txt.split("\n")[0], txt + symbolize(path, txt) + "\nstderr: " + p.stderr.decode("utf-8", "replace")[-1500:] + "\ncommand: " + " ".join(cmd))
    raise RuntimeError("mcs failed: rc=%s %s %s (%s)" % (p.returncode, out[-1500:], p.stderr[-1500:], " ".join(cmd)))

def symbolize(path, txt):
    a = [w for w in txt.replace(";", " ").split() if w.startswith("0x4")]
    if not a: return ""
    p = subprocess.run(["addr2line", "-f", "-s", "-e", path, *a], stdout=subprocess.PIPE)
    ls = p.stdout.decode().split("\n")
    return "frames: " + ", ".join("%s (%s)" % (ls[i], ls[i + 1]) for i in range(0, len(ls) - 1, 2))

def build_sig():
    """sighook.c's statics are moved to sections of their own, so that every execution starts from fresh ones."""
    b = vc.Build(cflags=CFLAGS, tag="mcs", objs_only=True)
    o = os.path.join(b.dir, "obj/src/sighook.o")
    vc.sh(["objcopy", "--rename-section", ".data=shdata", "--rename-section", ".bss=shbss,alloc,load,data,contents", "--set-section-flags", ".bss=alloc,load,data,contents", o], what="objcopy")
    return build("mcs_sig", "mcs_sig", ("sigaction", "signal", "raise", "syscall", "getpid", "pthread_sigmask"), b=b)
