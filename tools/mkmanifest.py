#!/usr/bin/env python3
"""Regenerate MANIFEST.json.  A property without an entry here is listed under not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
X = "exhaustive stateless enumeration of executions of the real bfs (fork server with interposed environment) against a reference model"
M = "stateless model checking of the real code: all schedules up to a deviation bound under a controlled scheduler, with a happens-before race detector and a heap checker"
CHECKS = {
 "C01": ("checks/walk.py C01", X, "model_checking", "All hierarchies up to the node bound times all walk configurations, plus complete families at size thresholds; assumes a static hierarchy. Thread schedules are those the OS produces here (C04 enumerates them)."),
 "C02": ("checks/walk.py C02", X, "model_checking", "Order compared with a closed-form order for every hierarchy up to the node bound, including delayed opens/reads of every directory; C locale."),
 "C03": ("checks/ioq.py", M, "model_checking", "Real ioq.c and thread.c; system calls and io_uring are deterministic stand-ins; atomics run sequentially consistently with a happens-before race detector covering weaker outcomes; deviation bound K as in the evidence."),
 "C04": ("checks/bftw.py", M, "model_checking", "Real bftw.c, ioq.c and dir.c walking real small trees; io_uring is a model of the kernel; atomics run sequentially consistently with a happens-before race detector; deviation (delay) bound K as in the evidence."),
 "C05": ("checks/opt.py", X, "model_checking", "All expressions up to the stated size over an alphabet of tests and actions, on a file matrix whose attributes can all be read, -O0..-O3 compared."),
 "C06": ("checks/expr.py", X, "model_checking", "All argument sequences up to the stated length against a reference parser/evaluator."),
 "C07": ("checks/attr.py", X, "model_checking", "Complete grids of arguments (values, signs, units, malformed forms) times boundary values of each attribute (attributes are set by interposing on statx); C locale."),
 "C08": ("checks/match.py", X, "model_checking", "All patterns up to the length bound and all regular expressions up to the size bound times complete sets of names, link targets and paths; C and C.UTF-8 locales; constructs POSIX leaves undefined are skipped."),
 "C09": ("checks/exec.py", X, "model_checking", "All hierarchies up to the node bound x command shapes x outcomes x argument limits x refusals to start a command, on the fork and posix_spawn paths; each command records how it was run."),
 "C10": ("checks/delete.py", X, "model_checking", "All small hierarchies x expressions with -delete x failures of each removal; removals outside the jail are refused and recorded, so nothing outside the scratch directory can be harmed."),
 "C11": ("checks/fds.py", X, "model_checking", "All small hierarchies and four large ones under every small descriptor limit; EMFILE at every open and pairs of opens with the life of each descriptor traced; what every command inherits."),
 "C12": ("checks/fault.py", X, "model_checking", "Every call of each class that a run makes fails in turn, with each of the errors stated; single faults (pairs in thorough)."),
 "C13": ("checks/oom.py", X, "model_checking", "Every allocation a run makes fails in turn (once, and from then on), over a set of commands that reach every subsystem; crashes, wrong output with status 0 and silent failures are violations."),
 "C14": ("checks/output.py", X, "model_checking", "All sequences of up to three output actions over all ways to name the same file; every write and close of every output fails or is short, the disk fills up at every byte; writes made by libc are intercepted with seccomp."),
 "C15": ("checks/sig.py", M, "model_checking", "Real sighook.c; deliveries are calls of the installed handler at scheduling points; deviation bound K as in the evidence."),
 "C16": ("checks/trie.py", "explicit-state exploration of all operation sequences on the real trie code against a list model", "model_checking", "All sequences up to the stated length over all small key sets of several universes; all subsets of wide key sets; each allocation failing."),
 "C17": ("checks/quote.py", X, "model_checking", "All byte strings up to the length bound over an alphabet of special, control, multibyte and invalid bytes, as arguments and as file names, read back by bash and xargs; C and C.UTF-8 locales."),
 "C18": ("checks/links.py", X, "model_checking", "All arrangements of up to five directories, files and links with links to every node, themselves or nothing, x -P/-H/-L x strategies x threads x -depth x -unique, against an independent walk."),
 "C19": ("checks/mounts.py", X, "model_checking", "All small hierarchies x all assignments of up to three devices to their files x -mount/-xdev/neither x strategies x threads x -L; device numbers are set by interposing on statx."),
 "C20": ("checks/printf.py", X, "model_checking", "All format strings up to the token bound and all directives x flags x width x precision x time formats x time zones over files with boundary attributes (set by interposing on statx), against an independent renderer; C locale."),
 "C21": ("checks/color.py", X, "model_checking", "All combinations of file kinds and LS_COLORS keys, all small sets of suffix entries, all escapes and single-byte corruptions of entries, x -color/-nocolor/tty; output with colours removed must be the plain output, and each path component's colour is computed independently."),
 "C22": ("checks/order.py", X, "model_checking", "All interleavings of up to two flags/options and two roots with eleven expressions, all groups of up to three flag letters, all small -files0-from lists, and malformed pieces at every position; each compared with the same line in the traditional order (which C06 anchors)."),
 "C23": ("checks/spawn.py", "exhaustive enumeration of action sequences, PATHs and failing calls on the real bfs_spawn(), against the same system calls made in order", "model_checking", "All sequences up to the stated length; closing a descriptor that isn't open and dup2 onto itself are not judged."),
 "C24": ("checks/times.py", "exhaustive enumeration of timestamps on the real xgetdate() and -newerXt/-since against an independent calendar", "model_checking", "Every day of ten thousand years, every offset, every second of selected days, every shape with every single-byte change; impossible dates (30 February) are not judged; local time relies on libc's zone rules."),
 "C25": ("checks/races.py", "exhaustive injection of concurrent changes before every system call of runs of the real program", "model_checking", "Every single change of the list at every point of a run on one hierarchy; links swapped in for directories are followed by bfs and not judged; with io_uring, points are the calls that go through libc."),
 "C26": ("checks/meta.py", "exhaustive enumeration of files with attribute sets and of mount arrangements and tables, on the real program, against a reference relation", "model_checking", "Attributes, mounts and the mount table are supplied at the library boundary; the lists of attribute sets and tables are finite."),
}
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the checks build bfs's own sources from /repo's working tree and interpose on libc (and, for the scheduler, on compiler-inserted instrumentation calls) at link time. The only commits in /repo are fixes."}
for p in props:
    if p in CHECKS:
        cmd, tech, level, note = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 " + cmd, "thorough_cmd": "VERIF_TIER=thorough python3 " + cmd,
                            "evidence_file": "evidence/%s.json" % p, "technique": tech, "level": level, "level_note": note})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
