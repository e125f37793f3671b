#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (single source for titles/statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

prop("C01", "Every file is visited exactly once, whatever the walk configuration",
 "For any roots and any directory hierarchy that does not change, bfs evaluates the expression exactly once for every file at or below each root given (once per mention of the root) whose depth is within -mindepth/-maxdepth, under the path made of the root and the names below it byte for byte. This holds for every search strategy, thread count, -s, -d/-depth, and for every width, depth and name length of the hierarchy, and every such run exits 0 with nothing on standard error.",
 ["inputs", "configurations"],
 "all hierarchies (bounded exhaustively by node count, plus parametric wide/deep/long families across the internal buffer sizes) x all strategies x thread counts x -s x -depth x depth limits x root spellings",
 "The suite walks a handful of fixed trees of about ten files; batches, deep chains past PATH_MAX, queue overflows and unusual configuration combinations are never reached.",
 ["src/bftw.c", "src/dir.c", "src/ioq.c", "src/eval.c"],
 [("bftw_impl/bftw_ids/bftw_eds", "src/bftw.c"), ("bftw_build_path", "src/bftw.c"), ("bfs_readdir/bfs_polldir", "src/dir.c")],
 ["stdout of the bfs process", "exit status"])

prop("C02", "Visit order: parents first (last with -depth), breadth first, sorted",
 "A directory is always visited before everything inside it, or after everything inside it when -depth (or -delete) is in force. With -s the whole visit order is determined by the hierarchy alone: siblings in string order, and breadth-first (all files of one depth, over all roots, before the next depth), depth-first or deepening order as selected by -S, the same for every thread count; -S ids visits in non-decreasing depth for every thread count even without -s, as does -S bfs -j1.",
 ["inputs", "configurations", "schedules"],
 "all hierarchies up to the bound x strategies x thread counts x -s x -depth, and the I/O completion orders that the thread pool can produce",
 "Tests sort bfs's output before comparing it almost everywhere, and the trees are too small for out-of-order I/O completions.",
 ["src/bftw.c"],
 [("bftw_queue", "src/bftw.c"), ("bftw_list_sort", "src/bftw.c"), ("bftw_ids", "src/bftw.c")],
 ["order of stdout lines"])

prop("C03", "Asynchronous I/O queue: each request is answered exactly once, always",
 "Every request accepted by the asynchronous I/O queue comes back exactly once, carrying its own result (as if the system call had been made directly) and its own user data, for every queue depth, thread count and interleaving of the submitting thread with the workers. A blocking wait for a response never hangs while a request is outstanding, a full queue refuses a request without losing anything, and after cancellation every outstanding request still comes back, either executed or interrupted, with close requests always executed and nothing opened left behind.",
 ["schedules", "histories"],
 "all interleavings up to a preemption bound of the submitter and 1-2 workers, for all short submit/pop/wait/cancel histories over small queue depths",
 "A unit test exercises two fixed histories on whatever schedule the kernel happens to choose; lost wake-ups and ABA-style slot reuse need particular interleavings.",
 ["src/ioq.c", "src/ioq.h", "src/atomic.h", "src/thread.c"],
 [("ioqq slots and monitors", "src/ioq.c"), ("ioq_cancel", "src/ioq.c")],
 ["ioq_pop() results", "file descriptors", "hang/deadlock", "data races under the C memory model"])

prop("C04", "Walk results do not depend on thread interleaving",
 "For every interleaving of the main thread with the I/O worker threads, a walk of a given hierarchy terminates, visits exactly the same files as the single-threaded walk, closes every descriptor it opened and frees what it allocated. No two threads access the same memory without synchronisation, and -quit/-prune or an error in the middle of a walk with I/O in flight does not change this.",
 ["schedules"],
 "all interleavings up to a preemption bound of walks over small hierarchies with 1-2 workers, tiny descriptor limits and early termination at every visit",
 "Tests run -j1..-j3 on tiny trees once each, on a schedule nobody controls.",
 ["src/bftw.c", "src/ioq.c", "src/dir.c", "src/thread.c"],
 [("bftw_ioq_*", "src/bftw.c"), ("bftw_cache", "src/bftw.c"), ("ioq", "src/ioq.c")],
 ["visited set", "descriptor table", "hang/deadlock", "data races"])

prop("C05", "Optimisation never changes what an expression does",
 "For every expression and every file, evaluating at any optimisation level from -O0 to -O3 produces the same sequence of outputs and side effects, the same traversal and the same exit status. In particular facts inferred from one test (type, size, owner, time, inode, permissions, links, depth, name) never make a later test be skipped or decided differently from evaluating it on the file.",
 ["inputs", "programs"],
 "all expressions of bounded size over every optimiser-visible primary with colliding arguments, over a hierarchy holding a file for each combination of attributes",
 "The suite has a few dozen expressions; inference bugs need a specific pair of tests, negations and a file that tells them apart.",
 ["src/opt.c", "src/eval.c", "src/expr.c"],
 [("annotate/data_flow/simplify/lift passes", "src/opt.c")],
 ["stdout", "exit status", "side effects"])

prop("C06", "Expressions mean what the find grammar says",
 "For every expression and every file, operators associate and bind as documented (parentheses, ! / -not, implicit or explicit -a / -and, -o / -or, comma), evaluate left to right with short circuit, and each action runs exactly when evaluation reaches it, with the implied -print added exactly when the expression contains no action. -prune stops descent, -quit/-exit/-limit stop the whole run after exactly the stated work (with -exit's status), and -exclude/-nohidden remove matching files and their subtrees wherever they are written.",
 ["inputs", "programs"],
 "all token sequences up to a bounded length over operators, parentheses, traced tests and actions, evaluated against a reference parser/evaluator over a small hierarchy",
 "Tests cover a few hand-picked combinations; precedence and control-flow interactions only show for particular nestings.",
 ["src/parse.c", "src/eval.c", "src/expr.c", "src/opt.c"],
 [("parse_expr/parse_clause/parse_term/parse_factor", "src/parse.c"), ("eval_and/or/not/comma/prune/quit/limit/exit", "src/eval.c"), ("bfs_eval_expr", "src/eval.c")],
 ["stdout", "exit status", "rejection of malformed expressions"])

prop("C07", "File tests decide by the documented comparison on the file's attributes",
 "For every file and every argument, the attribute tests (-type/-xtype, -size with every unit, -links, -inum, -uid/-gid/-user/-group, -nouser/-nogroup, -perm in all numeric and symbolic forms, -depth N, -empty, -samefile, -newer and -newerXY, -[amc]time/-[amc]min with units and -daystart, -used, -hidden, -readable/-writable/-executable) are true exactly when the documented relation holds for N, +N or -N, with sizes rounded up to the unit and ages rounded down. Arguments that are not of the documented form are rejected with an error before anything is searched, never silently misread.",
 ["inputs"],
 "all boundary values of each attribute x all argument values around them x all comparison prefixes and units, and all short argument strings over the relevant alphabet",
 "Tests pick one value per primary; rounding and boundary errors need values at the exact edge.",
 ["src/eval.c", "src/parse.c", "src/stat.c", "src/xtime.c", "src/bfstd.c"],
 [("bfs_expr_cmp and eval_*", "src/eval.c"), ("parse_icmp/parse_mode/parse_time/parse_size", "src/parse.c")],
 ["stdout", "exit status"])

prop("C08", "Name, path, link and regex matching equals the pattern's definition",
 "-name, -path, -lname and their case-insensitive forms accept exactly the strings their shell pattern denotes (a '*' or '?' matching '/' and a leading '.', brackets, negation, ranges and backslash escapes included), whether or not the pattern contains wildcards, and -name is applied to the last component of the path even for roots with trailing slashes. -regex and -iregex match exactly when the regular expression matches the entire path.",
 ["inputs"],
 "all patterns up to a length over an alphabet of metacharacters and letters x all names up to a length",
 "Tests use about fifteen patterns; the literal fast path, escapes and anchoring have many corner cases.",
 ["src/eval.c", "src/parse.c", "src/xregex.c", "src/bfstd.c"],
 [("eval_fnmatch/parse_fnmatch", "src/eval.c, src/parse.c"), ("bfs_regexec anchoring", "src/xregex.c")],
 ["stdout"])

prop("C09", "-exec passes every match exactly once, in order, and reports failures",
 "With '{} +', -exec and -execdir hand every matching file to exactly one invocation, in visit order, never exceeding the system's argument size limit, never mixing directories for -execdir, and with every leftover batch run before bfs exits (also after -quit), however the system refuses or limits command lines. With ';' each match gets its own invocation with every '{}' in every argument replaced, run in the starting directory (or the file's own directory for -execdir, as ./name), and the result is true exactly when the command exits 0; any failure to run a command, or a failing '+' batch, gives bfs a non-zero exit status.",
 ["inputs", "fault_sequences"],
 "all small hierarchies and -exec shapes x all short sequences of spawn outcomes (success, failing exit status, signal, E2BIG, EAGAIN/ENOMEM fork failure, missing command) x argument-limit settings",
 "The tests never make execve/fork fail selectively, and reach one argument-limit configuration.",
 ["src/exec.c", "src/xspawn.c", "src/eval.c"],
 [("bfs_exec_multi/bfs_exec_flush/bfs_exec_arg_max", "src/exec.c"), ("bfs_exec_finish", "src/exec.c")],
 ["argv and cwd of every spawned command", "exit status"])

prop("C10", "-delete removes exactly the matching files and nothing else",
 "-delete and -rm remove exactly the files for which evaluation reaches the action, and never anything for which it does not: not the target of a symbolic link, not anything outside the roots, not a non-empty directory, and never '.' itself. A failed removal is reported, makes the action false and the exit status non-zero, and the rest of the walk goes on as if the removal had not been tried.",
 ["inputs", "fault_sequences"],
 "all small hierarchies with links x selecting expressions x configurations x single and double removal failures",
 "Tests delete three fixed trees and cannot inject removal failures.",
 ["src/eval.c", "src/bftw.c"],
 [("eval_delete", "src/eval.c")],
 ["final file system state", "stdout", "exit status"])

prop("C11", "Running short of file descriptors never changes results",
 "For every descriptor limit large enough to start and every thread count, and for every set of open() calls that fail with EMFILE because descriptors are short while bfs itself holds some it could release, the output and exit status equal those of an unlimited run. bfs never leaks a descriptor: when the walk ends every descriptor it opened is closed exactly once, and commands it runs inherit only standard descriptors.",
 ["fault_sequences", "configurations", "inputs"],
 "all descriptor limits from the minimum upwards x hierarchies deep and wide x strategies x thread counts, and every single/double EMFILE point",
 "The suite runs a few 'ulimit -n' values on one deep tree.",
 ["src/bftw.c", "src/eval.c", "src/dir.c", "src/ioq.c"],
 [("bftw_cache reserve/pop", "src/bftw.c"), ("raise_fdlimit/infer_fdlimit", "src/eval.c")],
 ["stdout", "exit status", "open/close trace"])

prop("C12", "An I/O error is reported, costs exit status 1, and loses only its own subtree",
 "For every single failing system call during a walk (open, read directory, stat, readlink, at any occurrence, with any errno), every file not at or below the failing path is still visited exactly once, and unless the results do not depend on that call a diagnostic naming the path is printed and the exit status is non-zero. With -noerror diagnostics do not change the exit status, and with -ignore_readdir_race a file that vanishes between listing and access causes neither a diagnostic nor a failure, while every other error still does.",
 ["fault_sequences", "inputs"],
 "every occurrence of every intercepted call in runs over small hierarchies x errno classes x strategies x thread counts x -noerror/-ignore_readdir_race",
 "Tests can only use permission-denied directories; errors from readdir, stat or a race at a particular call are never produced.",
 ["src/bftw.c", "src/eval.c", "src/dir.c", "src/stat.c"],
 [("bftw error entries (BFTW_ERROR)", "src/bftw.c"), ("eval_report_error/eval_should_ignore", "src/eval.c")],
 ["stdout", "stderr", "exit status"])

prop("C13", "Running out of memory fails cleanly",
 "If any memory allocation fails at any point of a search, bfs neither crashes, hangs, nor corrupts memory: it either completes with exactly the normal output, or says so on standard error and exits with a non-zero status. Nothing it prints to standard output before that is wrong: it is a part of the normal output (numeric IDs may stand in for names that could not be looked up).",
 ["fault_sequences"],
 "every allocation point of a set of runs covering all features, failing once or failing from then on",
 "No existing test makes malloc fail.",
 ["src/alloc.c", "src/dstring.c", "src/trie.c", "src/bftw.c", "src/ioq.c", "src/color.c", "src/parse.c", "src/ctx.c", "src/exec.c"],
 [("alloc/realloc wrappers and error paths", "src/*.c")],
 ["exit status/signal", "stdout", "stderr"])

prop("C14", "Output that cannot be written is never reported as success",
 "If any write of any of bfs's outputs (standard output or a file given to -fprint, -fprint0, -fprintf, -fls) fails for good, at any point including the final flush (and, for files, the close), bfs exits non-zero and reports the error on standard error, -noerror or not; otherwise (short writes included) every output contains exactly the bytes of its actions, in order. Actions naming the same file by different paths share one stream, so nothing is overwritten or interleaved.",
 ["fault_sequences", "inputs"],
 "every write/close occurrence x error or short write, over all output actions, stream combinations and output sizes around the buffer size",
 "The suite only tries /dev/full.",
 ["src/ctx.c", "src/eval.c", "src/color.c", "src/printf.c"],
 [("bfs_ctx_flush/bfs_ctx_dedup/bfs_ctx_free", "src/ctx.c")],
 ["file contents", "stderr", "exit status"])

prop("C15", "Signal hooks run exactly while registered, even when signals race changes",
 "A hook registered for a signal runs once for every delivery that begins after registration and ends before removal, never after its removal has returned, and a one-shot hook runs at most once. Registering or removing hooks in any order, from any thread, with signals arriving at any instruction, never affects the other hooks, never crashes, and leaves the original signal disposition in force when a signal has no hooks left; hooks registered for process exit run before the process dies of a fatal signal.",
 ["schedules", "histories"],
 "all short register/remove/deliver histories and all interleavings (preemption-bounded) of a mutating thread with deliveries at every memory operation",
 "The unit test registers and removes a hook in a loop on an uncontrolled schedule.",
 ["src/sighook.c", "src/sighook.h"],
 [("rcu lists and reader pins", "src/sighook.c"), ("sigdispatch/reraise", "src/sighook.c")],
 ["hook invocation log", "signal disposition", "memory safety"])

prop("C16", "Tries behave as maps under every operation sequence",
 "After any sequence of insertions, removals and clears, the string/memory map used for sets of names, inodes, users and colours finds exactly the keys present, each with its own value; prefix lookup returns a longest stored key that is a prefix of the query, postfix lookup a stored key with the query as a prefix, and iteration visits each key once in order of insertion. No sequence leaks, crashes or reads outside a key.",
 ["histories", "inputs"],
 "all operation sequences up to a bounded length over key sets chosen to force every node shape (shared prefixes, prefixes of each other, embedded zeros, long keys)",
 "The unit test inserts and removes one fixed list of keys.",
 ["src/trie.c", "src/trie.h", "src/alloc.c", "src/list.h"],
 [("trie_jump/trie_split/trie_collapse", "src/trie.c"), ("varena", "src/alloc.c")],
 ["return values of the trie interface", "sanitizer reports"])

prop("C17", "Printed paths are never ambiguous or dangerous",
 "Whatever argument or file name bfs quotes in a diagnostic (echoed command lines, dumped expressions, messages about output files and loops) reads back in a shell as exactly the original bytes and contains nothing unprintable. Coloured output never contains an unprintable character of a name other than white space: such a name appears as a $'...' word that decodes to the original bytes. -printx and -X are read back by xargs as exactly the original names, -X refusing, with non-zero status, exactly the names with blanks, quotes, backslashes or newlines; -print, -print0 and -printf without colour emit the bytes of a name unchanged.",
 ["inputs"],
 "all byte strings up to a length over an alphabet of shell-special, control, multibyte and invalid bytes",
 "Tests cover a few names.",
 ["src/bfstd.c", "src/eval.c", "src/color.c"],
 [("wordesc and its quoting styles", "src/bfstd.c"), ("eval_fprintx/eval_xargs_safe", "src/eval.c")],
 ["stdout/stderr bytes", "bash and xargs reading them back"])

prop("C18", "Symbolic links: -P, -H and -L follow exactly the links they should",
 "-P never follows a link, -H follows exactly links given as roots, -L follows every link, falling back to the link itself when it is broken, and all tests and types see the object so chosen. Walks terminate on every arrangement of links: with -L a directory that is its own ancestor is reported as a loop with non-zero status and not descended into, everything else reachable is visited, and -unique evaluates each distinct file once.",
 ["inputs", "configurations"],
 "all arrangements of up to a few directories, files and links (to every node, to ancestors, dangling, chains, self-loops) x -P/-H/-L x -unique x strategies x thread counts",
 "Tests use one fixed tree of links.",
 ["src/bftw.c", "src/eval.c", "src/stat.c"],
 [("bftw_stat_flags/bftw_init_ftwbuf cycle detection", "src/bftw.c"), ("eval_file_unique", "src/eval.c")],
 ["stdout", "stderr", "exit status"])

prop("C19", "-mount and -xdev confine the walk to the starting device",
 "With -xdev a mount point is visited but nothing below it is; with -mount the mount point itself is skipped as well; everything on the starting root's device is still visited, for every placement of mount points including below other devices, on roots, and reached through followed links. Without these options device boundaries make no difference.",
 ["inputs", "configurations"],
 "all assignments of up to three device numbers to the directories and files of all small hierarchies x -mount/-xdev/none x strategies x thread counts x -L x bind-mount style files",
 "Mount tests need root privileges to mount and are skipped; they use one mount.",
 ["src/bftw.c", "src/mtab.c", "src/eval.c"],
 [("bftw_is_mount and BFTW_PRUNE_MOUNTS/BFTW_SKIP_MOUNTS", "src/bftw.c")],
 ["stdout"])

prop("C20", "-printf and -ls render every attribute as documented",
 "For every file and every format string, -printf and -fprintf emit the literal text, escapes and directives exactly as documented (each directive the file's corresponding attribute, with the given flags, width and precision applied), write nothing else, and reject malformed formats up front. Output does not depend on the order in which attributes are needed, on links being followed elsewhere, or on -O level and thread count.",
 ["inputs", "programs"],
 "all format strings up to a bounded length over literals, escapes and directives, and all directive x flags x width x precision combinations over a hierarchy with every file type",
 "Tests use a dozen format strings.",
 ["src/printf.c", "src/eval.c"],
 [("bfs_printf_parse and bfs_printf_*", "src/printf.c")],
 ["stdout"])

prop("C21", "Colouring only adds escapes, and picks the colour LS_COLORS assigns",
 "With -color the printed text with escape sequences removed equals the -nocolor output, every colour sequence is properly reset, and each file gets the colour LS_COLORS/BFS_COLORS assign: the most specific type key that applies, otherwise the last-defined matching *suffix (case-sensitively, or insensitively where no conflicting case exists), otherwise the regular file colour. Without -color and without a terminal no escape is ever written.",
 ["inputs", "configurations"],
 "all LS_COLORS assignments of up to a few keys/suffixes over colliding suffix sets x file names and types",
 "Tests use about thirty fixed LS_COLORS values.",
 ["src/color.c", "src/trie.c"],
 [("build_iext_trie/get_ext/file_color", "src/color.c")],
 ["stdout bytes"])

prop("C22", "Options, roots and expression may be mixed in any order",
 "Moving flags (-L, -s, -jN, -S, -O, -X ...), root paths and global options to any position among the expression's arguments does not change what is searched or matched, except that a later flag overrides an earlier one of its kind, a flag written directly after ! or -exclude is its operand, and -daystart, -regextype/-E and -color (and -L/-H for the file named by -newer or -samefile) affect what follows them. Roots from -files0-from (NUL-separated, last one wins) are treated exactly as if listed on the command line, and any malformed command line is rejected with a diagnostic and non-zero status before anything is searched, removed or given to a command.",
 ["inputs", "programs"],
 "all interleavings of roots, flags and options with small expressions, all truncations and single-token corruptions of valid command lines",
 "Tests try a few mixed orders.",
 ["src/parse.c", "src/ctx.c"],
 [("skip_paths/parse_primary/is_flag_group", "src/parse.c"), ("parse_files0_roots", "src/parse.c")],
 ["stdout", "stderr", "exit status"])

prop("C23", "Spawning runs exactly the requested program with exactly the requested setup",
 "For every sequence of requested child actions (close, dup2, open, change directory, resource limits), the started program sees exactly the state those actions produce in order, on both the fork and posix_spawn paths, with PATH lookup as the shell does it (the first component that holds a runnable program, not a directory or plain file). If any step fails at any point, the caller gets the error of that step, no program runs, no child is left behind and no descriptor is leaked.",
 ["histories", "fault_sequences"],
 "all action sequences up to a bounded length, including failing ones at each position, x PATH shapes x spawn modes",
 "The unit test tries a few sequences.",
 ["src/xspawn.c"],
 [("bfs_spawn/bfs_fork_spawn/bfs_posix_spawn/bfs_resolve_*", "src/xspawn.c")],
 ["child's observed cwd/fds/limits", "errno", "descriptor table", "children"])

prop("C24", "Timestamps given on the command line denote the documented instant",
 "Every ISO 8601-style timestamp (dates with or without separators, optional time to the hour, minute or second, optional zone, or @seconds) accepted by -newerXt and -since denotes exactly that instant in the given zone, or local time when none is given, for every calendar date; a string that has none of these shapes is rejected. Time comparisons order instants by seconds and nanoseconds exactly.",
 ["inputs"],
 "all calendar days over several centuries, all month lengths, leap years, zone offsets, DST transitions of sampled zones, and all single-character corruptions of each accepted shape",
 "Unit tests check about twenty fixed strings.",
 ["src/xtime.c", "src/parse.c", "src/eval.c"],
 [("xgetdate/xmktime/xtimegm", "src/xtime.c"), ("eval_newer/timespec_cmp", "src/eval.c, src/xtime.c")],
 ["return values", "stdout"])

prop("C25", "Files changed by others during a walk affect only themselves",
 "If other processes remove, replace, move or add files and directories (but no links to directories) while bfs walks, at any points, the walk still ends without crashing; every file that is neither at nor below a changed path is visited (or, with -delete, removed) exactly as if nothing had changed; no path is visited twice unless what it names was replaced; errors name only changed paths (for -delete also the directories above them, when they are not empty) and exactly an error makes the exit status non-zero. With -ignore_readdir_race, removing, moving or replacing anything below the roots causes no error in a search.",
 ["histories", "schedules"],
 "every change of a small hierarchy (remove, replace by a file or directory, move within and out of it, add) before every open, directory read, stat, close and removal of a run, all strategies, several thread counts, -depth, -L, -empty, -delete",
 "The tests cover a single race, a file deleted between listing and stat.",
 ["src/bftw.c", "src/eval.c", "src/dir.c", "src/stat.c"],
 [("bftw_opendir/bftw_gc error visits", "src/bftw.c"), ("eval_should_ignore", "src/eval.c"), ("bfs_stat TRYFOLLOW fallback", "src/stat.c")],
 ["stdout", "stderr", "exit status", "file system"])

prop("C26", "Extended attributes, ACLs and filesystem types are those of the file itself",
 "-xattr, -xattrname, -acl (and the + of -ls), -capable and -context/%Z are true exactly when the file visited (the link itself where it is not followed) has an extended attribute, one of that name, a non-trivial access ACL or any default ACL, capabilities, or a matching security context, however the file is reached: as a root or below one, through followed links, beyond PATH_MAX, with or without /proc. Lack of support or data is simply false; any other failure to look is reported, with non-zero exit status, and affects no other file. -fstype and %F give the type of the filesystem the file is on, for every arrangement of mounts (bind mounts included) and every mount table, stale and hidden entries notwithstanding, and a file that something is mounted on has the type of what is mounted.",
 ["inputs", "histories"],
 "all kinds of files x 35 sets of attributes (failing lookups included) x ways of reaching them; all assignments of mounts to the points of a hierarchy x mount tables, with and without statx()",
 "The tests set one attribute on one file where the platform allows it, and mount one or two filesystems when run as root.",
 ["src/fsade.c", "src/mtab.c", "src/eval.c", "src/bftw.c", "src/printf.c"],
 [("bfs_check_acl/bfs_check_xattrs/bfs_check_capabilities", "src/fsade.c"), ("fake_at", "src/fsade.c"), ("bfs_mtab_fill_types", "src/mtab.c"), ("bfs_might_be_mount in bftw_must_stat", "src/bftw.c")],
 ["stdout", "stderr", "exit status"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
