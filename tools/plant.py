#!/usr/bin/env python3
"""Plant bugs: plant.py SPECFILE...   Each spec (several per file, separated by lines of '@@@@@'):
id: ...
property: ...
needs: ...
breaks: ...
%% FILE
old text
%%
new text
%% FILE ...
%% demo
shell script
%% file NAME
contents
Confirms in a scratch copy that it builds, passes the stable tests and that the demo fails with it and passes without,
then writes seeded/<id>/ and runs the property's check against the copy."""
import json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/plant"; BASE = os.environ.get("PLANTBASE", "/repo")
def sh(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
man = {c["property"]: c["quick_cmd"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
nocheck = "-n" in sys.argv
def one(spec):
    head, *parts = re.split(r"(?m)^%%", spec.strip("\n") + "\n")
    h = dict(l.split(": ", 1) for l in head.strip().split("\n"))
    edits, files, i = [], {}, 0
    while i < len(parts):
        name, body = parts[i].split("\n", 1)
        name = name.strip()
        if name == "demo": files["demo.sh"] = body; i += 1
        elif name.startswith("file "): files[name[5:]] = body; i += 1
        else:
            edits.append((name, body.rstrip("\n"), parts[i + 1].split("\n", 1)[1].rstrip("\n"))); i += 2
    shutil.rmtree(S, ignore_errors=True)
    subprocess.run(["cp", "-a", BASE, S], check=True)
    for f, old, new in edits:
        p = os.path.join(S, f); t = open(p).read()
        if t.count(old) != 1: return print(h["id"], "BAD: pattern found %d times in %s: %r" % (t.count(old), f, old))
        open(p, "w").write(t.replace(old, new))
    diff = sh(["git", "diff"], cwd=S).stdout.decode()
    os.makedirs(S + "-t", exist_ok=True)
    for n in ("build.sh", "test.sh"):
        open(S + "-t/" + n, "w").write(open("/opt/vp/" + n).read().replace("/repo", S))
    r = sh(["bash", S + "-t/build.sh"])
    if r.returncode: return print(h["id"], "BAD: build", r.stdout.decode()[-1500:])
    if b"warning" in r.stdout: print(h["id"], "warnings:", r.stdout.decode()[-500:])
    D = S + "-demo"; shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
    for n, b in files.items(): open(os.path.join(D, n), "w").write(b)
    def demo(cwd):
        try: return sh(["bash", D + "/demo.sh"], cwd=cwd, timeout=250)
        except subprocess.TimeoutExpired: return subprocess.CompletedProcess([], 99, b"timeout")
    a, b = demo(BASE), demo(S)
    if a.returncode != 0: return print(h["id"], "BAD: demo fails on /repo:", a.stdout.decode("utf-8", "replace")[-800:])
    if b.returncode == 0: return print(h["id"], "BAD: demo passes with the change:", b.stdout.decode("utf-8", "replace")[-800:])
    r = sh(["bash", S + "-t/test.sh", S + "-t/o.json"])
    miss = stable - set(json.load(open(S + "-t/o.json"))["passed"])
    if miss: return print(h["id"], "BAD: tests fail:", sorted(miss)[:8], len(miss))
    o = os.path.join(V, "seeded", h["id"]); shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
    for n, b2 in files.items(): open(os.path.join(o, n), "w").write(b2)
    open(o + "/patch.diff", "w").write(diff)
    json.dump({"property": h["property"], "needs": h["needs"], "what_it_breaks": h["breaks"]}, open(o + "/meta.json", "w"), indent=1)
    msg = "planted (demo: %s)" % b.stdout.decode("utf-8", "replace").strip()[-100:]
    if h["property"] in man and not nocheck:
        t = time.time()
        r = sh(man[h["property"]], shell=True, cwd=V, env=dict(os.environ, VERIF_REPO=S))
        v = [l for l in r.stdout.decode("utf-8", "replace").split("\n") if "violated" in l or "Error" in l]
        msg += "; %s rc=%d %.0fs %s" % ("CAUGHT" if r.returncode == 1 and b"VIOLATION property=%s " % h["property"].encode() in r.stdout else "MISSED", r.returncode, time.time() - t, (v or [""])[0][:160])
    print(h["id"], h["property"], msg, flush=True)
for f in sys.argv[1:]:
    if f == "-n": continue
    for s in open(f).read().split("\n@@@@@\n"):
        if s.strip(): one(s)
for d in (S, S + "-t", S + "-demo"): shutil.rmtree(d, ignore_errors=True)
