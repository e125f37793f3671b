#!/usr/bin/env python3
"""C16: every sequence of trie operations up to a depth, over every small set of keys of several universes, on the real trie."""
import itertools, os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vc

THOROUGH = vc.TIER == "thorough"
WRAPS = ["-Wl,--wrap=" + s for s in ("malloc", "calloc", "realloc", "posix_memalign", "aligned_alloc", "free")]

def families():
    """(kind, keys, depth)"""
    out = []
    # all sets of keys from all strings up to length 2 over characters that share none, one or both nibbles, or sit next to NUL
    uni = ["".join(t) for n in range(3) for t in itertools.product("\x01`aq", repeat=n)]
    for f in itertools.combinations(uni, 3): out.append(("s", f, 5))
    for i, f in enumerate(itertools.combinations(uni, 4)):
        if THOROUGH or i % 3 == 0: out.append(("s", f, 4 if not THOROUGH else 5))
    # longer keys: branches around every word size, and chains of prefixes
    for L in (3, 4, 5, 6, 7, 8, 9, 11, 12, 15, 16, 17, 31, 32, 33):
        p = "p" * L
        f = [p, p + "a", p + "b", p[:-1], p[:-1] + "q", p + "ab"]
        for g in itertools.combinations(f, 4): out.append(("s", g, 4))
        f = [p, "q" + p[1:], p[:L // 2] + "\x7f" + p[L // 2 + 1:], p[:L // 2] + "x" + p[L // 2 + 1:], p[:L - 1] + "\xf0"]
        for g in itertools.combinations(f, 4): out.append(("s", g, 4))
    out.append(("s", ["", "a", "ab", "abc", "abcd", "abcde"], 5))
    out.append(("s", ["pre", "prefix", "pref", "p", "prefixes"], 5))
    out.append(("s", ["zg.", "zg.r", "zg.rat", "2zb.rat", "zgt.", "zg"], 5))
    # memory keys of one length, NUL bytes included, as used for ids
    for L in (1, 2, 4, 8, 16):
        z = "\0" * L
        ks = sorted({z, z[:-1] + "\x01", z[:-1] + "\x10", "\x01" + z[1:], "\x10" + z[1:], z[:L // 2] + "\xff" + z[L // 2 + 1:], "\xff" * L})
        for g in itertools.combinations(ks, 4): out.append(("m", g, 5))
        out.append(("m", ks[:6], 4))
    return out

def wide():
    """Sets whose subsets are all visited."""
    out = []
    for base in ("%c", "aa%c", "aaaaaaa%cz"):
        out.append(("s", [base % chr(c) for c in range(0x61, 0x71)]))                    # one node of 16 children, low nibble (plus one high)
        out.append(("s", [base % chr((c << 4) | 1) for c in range(0, 16)]))              # high nibble
        out.append(("s", [base % chr(c) for c in (1, 2, 15, 16, 17, 32, 0x61, 0x62, 0x71, 0x7f, 0x80, 0x81, 0xf0, 0xff)]))
    out.append(("s", ["a" * i for i in range(14)]))
    out.append(("s", ["".join(t) for t in itertools.product("\x01`aq", repeat=2)][:15]))
    out.append(("m", ["".join(t) for t in itertools.product("\0\1\x10\xff", repeat=2)][:15]))
    out.append(("m", [chr(i) * 16 for i in range(15)]))
    return out

def worker(job):
    exe, mode, depth, kind, keys = job
    hexs = [k.encode("latin-1").hex() for k in keys]
    p = subprocess.run([exe, mode, str(depth), kind, *hexs], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600,
                       env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1"})
    o = p.stdout.decode("latin-1").strip()
    r = {"evals": 1, "distinct": 1, "violations": []}
    if p.returncode == 0 and o.startswith("OK"):
        n, ops, look = map(int, o.split()[1:])
        r["evals"] = n; r["states"] = n; r["events"] = ops; r["distinct"] = n; r["extra"] = {"lookups": look, "families": 1}
        return r
    what = o if o.startswith("BAD") else "crash (status %s): %s" % (p.returncode, p.stderr.decode("latin-1")[:300])
    r["violations"].append(("%s [%s]" % (what[:200], mode), "keys (%s): %r\n%s %s %d %s %s\n%s\n%s" % (kind, list(keys), os.path.basename(exe), mode, depth, kind, " ".join(hexs), o, p.stderr.decode("latin-1")[:4000])))
    return r

def main(chk):
    b = vc.Build(tag="trie")
    a = vc.Build(cflags="-g -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined", tag="trie-asan")
    exe = b.harness("trie_mc", ["trie_mc.c"], extra=WRAPS)
    asan = a.harness("trie_mc_asan", ["trie_mc.c"], extra=WRAPS)
    # the same trie with 4-bit offsets, so that nodes bridging long gaps ("jump" nodes) occur with short keys
    shim = os.path.join(b.dir, "narrow.h")
    open(shim, "w").write("#include <stdint.h>\n#include <limits.h>\n#undef SIZE_WIDTH\n#define SIZE_WIDTH 20\n")
    no = os.path.join(b.dir, "trie_narrow.o")
    vc.sh([b.cc, "-I", os.path.join(b.dir, "src"), "-I", os.path.join(b.dir, "gen"), *b.cppflags, "-std=gnu17", "-g", "-O1", "-include", shim,
           "-c", "-o", no, os.path.join(b.dir, "src/trie.c")], cwd=b.dir, what="narrow trie")
    narrow = b.harness("trie_mc_narrow", ["trie_mc.c"], extra=[no, *WRAPS], exclude=("main.o", "trie.o"))
    jobs = []
    fams = families()
    for i, (kind, keys, d) in enumerate(fams):
        jobs.append((exe, "dfs", d, kind, keys))
        if i % 8 == 0 or len(keys[0]) > 2 or kind == "m": jobs.append((asan, "dfs", min(d, 3 if not THOROUGH else 4), kind, keys))
        if len(keys[0]) > 6: jobs.append((narrow, "dfs", d, kind, keys))
    for kind, keys in wide():
        for rot in range(len(keys) if THOROUGH else 2):
            jobs.append((exe, "gray", rot * 3, kind, keys)); jobs.append((narrow, "gray", rot * 3 + 1, kind, keys))
        for rot in range(len(keys)):
            for e in (exe, asan, narrow): jobs.append((e, "fail", rot, kind, keys))
        jobs.append((exe, "cycle", 0, kind, keys))
    for L in range(17, 80, 3):
        ks = ["g" * L, "g" * L + "h", "g" * (L - 9) + "h", "g" * (L // 2) + "i" + "g" * 20, "h", "g" * L + "hi"]
        for g in itertools.combinations(ks, 4): jobs.append((narrow, "dfs", 4, "s", g))
        jobs.append((narrow, "fail", 0, "s", ks)); jobs.append((narrow, "cycle", 0, "s", ks)); jobs.append((narrow, "gray", 0, "s", ks))
    jobs.sort(key=lambda j: (j[1] != "gray", -j[2] - len(j[4])))
    chk.extra["universe"] = "all 3-key and %s 4-key sets of the 21 strings of length <= 2 over 4 characters; sequences of insert/remove/set-again/clear up to length 5" % ("all" if THOROUGH else "a third of the")
    vc.parallel(jobs, worker, chk, chunk=4)

vc.main("C16", "model_checking", "every sequence of insert/remove/set/clear up to the stated length over each set of keys (and every subset of the wide sets, by single toggles; and each allocation failing in turn), executed on the real trie; after every operation all lookups of all keys and of all neighbouring strings are compared with a list of the keys present",
        main, ["keys are prefix-free byte strings (NUL-terminated, or of one length), as the API requires"])
