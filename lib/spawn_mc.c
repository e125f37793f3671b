// Exhaustive enumeration of bfs_spawn() requests on the real code.
//   spawn_mc DIR SPY seq LAYOUT DEPTH PART NPARTS   all sequences of actions, against the same system calls made in order
//   spawn_mc DIR SPY path PART NPARTS               all PATHs x what each directory holds
//   spawn_mc DIR SPY fault PART NPARTS              every call made by bfs_spawn() fails, in the parent and in the child
//   spawn_mc DIR SPY exe                            programs that can't be started, arguments and environments
#include "xspawn.h"
#include "sighook.h"
#include "spawn_report.h"
#include <spawn.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/wait.h>

static char *dir, *spy;
static char rep[600];
static long n, nbad, nstates;
extern char **environ;

// ---- faults: the K-th call of bfs itself fails, in the parent or in the child
static struct shared { int parent, child, who, at, err, kind, hit; char what[32]; char ref[65536]; int refn, referr, refstep; } *S;
static pid_t self;
static int fail(const char *f) {
	if (!self) return 0;
	int me = getpid() != self;
	int k = me ? ++S->child : ++S->parent;
	if (S->at && me == S->who && k == S->at) {
		S->hit = 1;
		snprintf(S->what, sizeof S->what, "%s", f);
		errno = S->err;
		return 1;
	}
	return 0;
}
#define WRAP(r, f, decl, use) r __real_##f decl; r __wrap_##f decl { if (fail(#f)) return -1; return __real_##f use; }
#define WRAPE(f, decl, use) int __real_##f decl; int __wrap_##f decl { if (fail(#f)) { int e = errno; errno = 0; return e; } return __real_##f use; }
#define WRAPP(f, decl, use) void *__real_##f decl; void *__wrap_##f decl { if (fail(#f)) { errno = ENOMEM; S->err = ENOMEM; return NULL; } return __real_##f use; }
WRAP(int, pipe, (int *p), (p))
WRAP(int, pipe2, (int *p, int f), (p, f))
WRAP(pid_t, fork, (void), ())
WRAP(pid_t, _Fork, (void), ())
WRAP(int, dup, (int a), (a))
WRAP(int, dup2, (int a, int b), (a, b))
WRAP(int, dup3, (int a, int b, int c), (a, b, c))
WRAP(int, fchdir, (int a), (a))
WRAP(int, setrlimit, (int a, const struct rlimit *r), (a, r))
WRAP(int, execve, (const char *p, char **a, char **e), (p, a, e))
WRAP(int, faccessat, (int a, const char *p, int m, int f), (a, p, m, f))
WRAP(int, sigaction, (int s, const struct sigaction *a, struct sigaction *o), (s, a, o))
WRAPE(posix_spawn, (pid_t *p, const char *e, const posix_spawn_file_actions_t *f, const posix_spawnattr_t *t, char **a, char **v), (p, e, f, t, a, v))
WRAPE(posix_spawnp, (pid_t *p, const char *e, const posix_spawn_file_actions_t *f, const posix_spawnattr_t *t, char **a, char **v), (p, e, f, t, a, v))
WRAPE(posix_spawn_file_actions_init, (posix_spawn_file_actions_t *f), (f))
WRAPE(posix_spawnattr_init, (posix_spawnattr_t *f), (f))
WRAPE(posix_spawn_file_actions_addopen, (posix_spawn_file_actions_t *f, int a, const char *p, int g, mode_t m), (f, a, p, g, m))
WRAPE(posix_spawn_file_actions_addclose, (posix_spawn_file_actions_t *f, int a), (f, a))
WRAPE(posix_spawn_file_actions_adddup2, (posix_spawn_file_actions_t *f, int a, int b), (f, a, b))
WRAPE(posix_spawn_file_actions_addfchdir_np, (posix_spawn_file_actions_t *f, int a), (f, a))
WRAPP(malloc, (size_t a), (a))
WRAPP(calloc, (size_t a, size_t b), (a, b))
WRAPP(realloc, (void *q, size_t b), (q, b))
#define WRAPV(f) int __real_##f(int a, ...); 
int __real_open(const char *p, int f, ...);
int __wrap_open(const char *p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, mode_t); va_end(a); if (fail("open")) return -1; return __real_open(p, f, m); }
int __real_open64(const char *p, int f, ...);
int __wrap_open64(const char *p, int f, ...) { va_list a; va_start(a, f); mode_t m = va_arg(a, mode_t); va_end(a); if (fail("open")) return -1; return __real_open64(p, f, m); }
int __real_fcntl(int p, int f, ...);
int __wrap_fcntl(int p, int f, ...) { va_list a; va_start(a, f); long m = va_arg(a, long); va_end(a); if (fail("fcntl")) return -1; return __real_fcntl(p, f, m); }
int __real_fcntl64(int p, int f, ...);
int __wrap_fcntl64(int p, int f, ...) { va_list a; va_start(a, f); long m = va_arg(a, long); va_end(a); if (fail("fcntl")) return -1; return __real_fcntl64(p, f, m); }

// ---- actions
enum { CLOSE, DUP2, OPEN, FCHDIR, RLIM };
struct act { int op, a, b; const char *path; int flags; struct rlimit rl; const char *txt; };
static const struct act ALL[] = {
	{CLOSE, 3, .txt = "close 3"}, {CLOSE, 4, .txt = "close 4"}, {CLOSE, 6, .txt = "close 6"}, {CLOSE, 7, .txt = "close 7"},
	{DUP2, 3, 0, .txt = "dup2 3 0"}, {DUP2, 3, 4, .txt = "dup2 3 4"}, {DUP2, 3, 6, .txt = "dup2 3 6"}, {DUP2, 3, 7, .txt = "dup2 3 7"},
	{DUP2, 4, 1, .txt = "dup2 4 1"}, {DUP2, 4, 3, .txt = "dup2 4 3"}, {DUP2, 4, 6, .txt = "dup2 4 6"}, {DUP2, 4, 7, .txt = "dup2 4 7"},
	{DUP2, 5, 6, .txt = "dup2 5 6"}, {DUP2, 5, 7, .txt = "dup2 5 7"}, {DUP2, 5, 4, .txt = "dup2 5 4"},
	{DUP2, 6, 7, .txt = "dup2 6 7"}, {DUP2, 7, 6, .txt = "dup2 7 6"}, {DUP2, 6, 4, .txt = "dup2 6 4"}, {DUP2, 7, 4, .txt = "dup2 7 4"}, {DUP2, 9, 6, .txt = "dup2 9 6"},
	{OPEN, 4, 0, "f1", O_RDONLY, .txt = "open 4 f1"}, {OPEN, 6, 0, "f1", O_RDWR, .txt = "open 6 f1"}, {OPEN, 7, 0, "f1", O_RDONLY, .txt = "open 7 f1"}, {OPEN, 10, 0, "f1", O_RDONLY, .txt = "open 10 f1"},
	{OPEN, 6, 0, "missing", O_RDONLY, .txt = "open 6 missing"}, {OPEN, 7, 0, "new", O_WRONLY | O_CREAT | O_EXCL, .txt = "open 7 new"}, {OPEN, 0, 0, "new", O_RDWR | O_CREAT | O_APPEND, .txt = "open 0 new"},
	{FCHDIR, 3, .txt = "fchdir 3"}, {FCHDIR, 4, .txt = "fchdir 4"}, {FCHDIR, 6, .txt = "fchdir 6"}, {FCHDIR, 7, .txt = "fchdir 7"},
	{RLIM, RLIMIT_CORE, .rl = {100, 200}, .txt = "rlimit core"}, {RLIM, RLIMIT_NOFILE, .rl = {64, 128}, .txt = "rlimit nofile"}, {RLIM, RLIMIT_CORE, .rl = {300, 200}, .txt = "rlimit invalid"},
};
#define NALL (int)(sizeof ALL / sizeof *ALL)

static int raw(const struct act *a) {
	int fd;
	switch (a->op) {
	case CLOSE: return close(a->a);
	case DUP2: return __real_dup2(a->a, a->b);
	case OPEN:
		fd = __real_open(a->path, a->flags, 0640);
		if (fd < 0) return -1;
		if (fd != a->a) { if (__real_dup2(fd, a->a) < 0) return -1; close(fd); }
		return 0;
	case FCHDIR: return __real_fchdir(a->a);
	case RLIM: return __real_setrlimit(a->a, &a->rl);
	}
	return -1;
}
static int add(struct bfs_spawn *ctx, const struct act *a) {
	switch (a->op) {
	case CLOSE: return bfs_spawn_addclose(ctx, a->a);
	case DUP2: return bfs_spawn_adddup2(ctx, a->a, a->b);
	case OPEN: return bfs_spawn_addopen(ctx, a->a, a->path, a->flags, 0640);
	case FCHDIR: return bfs_spawn_addfchdir(ctx, a->a);
	case RLIM: return bfs_spawn_setrlimit(ctx, a->a, &a->rl);
	}
	return -1;
}
static void clean(void) {
	char p[600];
	unlink(rep);
	snprintf(p, sizeof p, "%s/new", dir); unlink(p);
	snprintf(p, sizeof p, "%s/A/new", dir); unlink(p);
}
// The state that the actions produce when they are carried out in order
static void reference(const struct act **acts, int k, int skipbad) {
	clean();
	S->refn = S->referr = 0; S->refstep = -1;
	pid_t p = __real_fork();
	if (p == 0) {
		self = 0;
		for (int i = 0; i < k; ++i) {
			errno = 0;
			if (raw(acts[i]) < 0 && !(skipbad && acts[i]->op == CLOSE && errno == EBADF)) { S->referr = errno; S->refstep = i; _exit(0); }
		}
		S->refn = report(S->ref, sizeof S->ref, 1);
		_exit(0);
	}
	waitpid(p, NULL, 0);
	clean();
}

static char before[65536], after[65536], got[65536], want[65536];
static int slurp(char *buf, int size) {
	int fd = __real_open(rep, O_RDONLY | O_CLOEXEC, 0);
	if (fd < 0) { buf[0] = 0; return -1; }
	int k = read(fd, buf, size - 1);
	buf[k < 0 ? 0 : k] = 0;
	close(fd);
	return k;
}
static char desc[2000];
static void bad(const char *fmt, ...) {
	if (++nbad > 5) return;
	va_list a; va_start(a, fmt);
	printf("BAD %s: ", desc); vprintf(fmt, a); printf("\n"); va_end(a);
	fflush(stdout);
}
// One spawn.  Returns 0 and got[] if the program ran, else errno; -1 if something is wrong.
static int spawn(const char *exe, int flags, int posix, const struct act **acts, int k, char **argv, char **envp) {
	++n;
	clean();
	int bn = report(before, sizeof before, 0);
	before[bn] = 0;
	self = getpid();
	S->parent = S->child = S->hit = 0;
	struct bfs_spawn ctx;
	int err = 0;
	pid_t pid = -1;
	errno = 0;
	if (bfs_spawn_init(&ctx) != 0) err = errno ? errno : 9999;
	else {
		if (!posix) ctx.flags &= ~BFS_SPAWN_USE_POSIX;
		ctx.flags |= flags;
		int i;
		for (i = 0; i < k; ++i) if (add(&ctx, acts[i]) != 0) break;
		if (i < k) err = errno ? errno : 9999;
		else {
			pid = bfs_spawn(exe, &ctx, argv, envp);
			if (pid < 0) err = errno ? errno : 9999;
		}
		self = 0;
		bfs_spawn_destroy(&ctx);
	}
	self = 0;
	int st = 0;
	if (pid >= 0) {
		if (pid == 0 || waitpid(pid, &st, 0) != pid) { bad("bfs_spawn() returned %d, which is no child", (int)pid); return -1; }
	}
	if (waitpid(-1, NULL, WNOHANG) != -1 || errno != ECHILD) { bad("a child is left behind (result %s)", err ? strerror(err) : "success"); while (waitpid(-1, NULL, 0) > 0); return -1; }
	int an = report(after, sizeof after, 0);
	after[an] = 0;
	if (strcmp(before, after)) { bad("the caller's state changed (result %s):\n--- before\n%s--- after\n%s", err ? strerror(err) : "success", before, after); return -1; }
	int gn = slurp(got, sizeof got);
	if (err) {
		if (gn > 0) { bad("the program ran although bfs_spawn() failed with %s", strerror(err)); return -1; }
		if (err == 9999) { bad("bfs_spawn() failed without an error number"); return -1; }
		return err;
	}
	if (!WIFEXITED(st) || WEXITSTATUS(st) != 42) {
		bad("bfs_spawn() succeeded, but the wait status is %#x%s", st, gn > 0 ? " (the program ran)" : " (the program did not run)");
		return -1;
	}
	return 0;
}
static char *ENV[] = {"A=b", "EMPTY=", NULL};
static int describe(const struct act **acts, int k, const char *mode) {
	int m = snprintf(desc, sizeof desc, "%s:", mode);
	for (int i = 0; i < k; ++i) m += snprintf(desc + m, sizeof desc - m, " [%s]", acts[i]->txt);
	return m;
}
static void tail(char *buf, int m, int size, const char *exe, char **argv, char **envp) {
	m += snprintf(buf + m, size - m, "exe=%s\n", exe);
	for (char **a = argv; *a; ++a) m += snprintf(buf + m, size - m, "arg=%s\n", *a);
	for (char **e = envp; *e; ++e) m += snprintf(buf + m, size - m, "env=%s\n", *e);
}
static int refwant(const struct act **acts, int k, int skip, char **argv) {
	reference(acts, k, skip);
	if (S->referr) return S->referr;
	memcpy(want, S->ref, S->refn);
	tail(want, S->refn, sizeof want, spy, argv, ENV);
	return 0;
}
static char *ARGV[4];
static void judge_seq(const struct act **acts, int k) {
	++nstates;
	int e = refwant(acts, k, 0, ARGV), e2 = -1;
	static char want2[65536];
	if (e == EBADF && acts[S->refstep]->op == CLOSE) {
		// posix_spawn() may ignore the closing of a descriptor that isn't open
		static char w[65536];
		memcpy(w, want, sizeof w);
		e2 = refwant(acts, k, 1, ARGV);
		memcpy(want2, want, sizeof want2);
		memcpy(want, w, sizeof w);
	}
	for (int posix = 0; posix < 2; ++posix) {
		describe(acts, k, posix ? "posix_spawn" : "fork");
		int r = spawn(spy, 0, posix, acts, k, ARGV, ENV);
		if (r < 0) continue;
		if (r == e && (r || !strcmp(got, want))) continue;
		if (e2 >= 0 && r == e2 && (r || !strcmp(got, want2))) continue;
		if (r != e) bad("%s, expected %s", r ? strerror(r) : "success", e ? strerror(e) : "success");
		else bad("the program's state is\n%s--- expected\n%s", got, want);
	}
}
static void seq(int depth, int part, int nparts) {
	long i = 0;
	const struct act *acts[8];
	int idx[8];
	for (int k = 0; k <= depth; ++k) {
		long total = 1;
		for (int j = 0; j < k; ++j) total *= NALL;
		for (long c = 0; c < total; ++c, ++i) {
			if (i % nparts != part) continue;
			long x = c;
			for (int j = 0; j < k; ++j) idx[j] = x % NALL, x /= NALL, acts[j] = &ALL[idx[j]];
			judge_seq(acts, k);
		}
	}
}

static const char *join(const char *a, const char *b) {
	static char r[8][700]; static int i;
	i = (i + 1) % 8;
	snprintf(r[i], sizeof r[i], "%s/%s", a, b);
	return r[i];
}
// ---- PATH.  Places: 0 d1, 1 d2, 2 the caller's directory, 3 A, 4 r, 5 A/r
static const char *place(int i) { return (const char *[]){"d1", "d2", ".", "A", "r", "A/r"}[i]; }
enum { NONE, EXEC, NOEXEC, DIRECTORY, NSTATES };
static int cur[6];
static void put(int i, int st) {
	if (cur[i] == st) return;
	const char *p = join(join(dir, place(i)), "prog");
	if (cur[i] == DIRECTORY) rmdir(p); else unlink(p);
	if (st == EXEC) { if (link(spy, p)) { perror("link"); exit(3); } }
	else if (st == NOEXEC) close(__real_open(p, O_CREAT | O_WRONLY, 0644));
	else if (st == DIRECTORY) mkdir(p, 0755);
	cur[i] = st;
}
enum { C_D1, C_D2, C_EMPTY, C_DOT, C_R, C_NONE, NCOMP };
static int comp_place(int c, int chdir) {
	switch (c) {
	case C_D1: return 0;
	case C_D2: return 1;
	case C_EMPTY: case C_DOT: return 2 + chdir;
	case C_R: return 4 + chdir;
	}
	return -1;
}
static void judge_path(int found, int direct, const char *exe, int flags, int chdir, int resolve) {
	const struct act *fc[] = {&ALL[27]};
	char w[700] = "";
	if (found >= 0) { snprintf(w, sizeof w, "exe=%s", dir); if (strcmp(place(found), ".")) strcat(strcat(w, "/"), place(found)); strcat(w, "/prog\n"); }
	int base = strlen(desc);
	for (int posix = 0; posix < 2; ++posix) {
		snprintf(desc + base, sizeof desc - base, " %s%s", posix ? "posix_spawn" : "fork", chdir ? " with fchdir" : "");
		int r = spawn(exe, flags, posix, fc, chdir, ARGV, ENV);
		desc[base + 11 + 12] = 0;
		if (r < 0) continue;
		if (found >= 0 ? r != 0 : (r != ENOENT && r != EACCES)) bad("%s, expected %s", r ? strerror(r) : "success", found >= 0 ? w : "no program to be found");
		else if (!r && !strstr(got, w)) bad("another program ran; expected %s, got %s", w, strstr(got, "exe="));
	}
	if (resolve) {
		strcpy(desc + base, " bfs_spawn_resolve()");
		char *p = bfs_spawn_resolve(exe);
		++n;
		char real[4096];
		if (!p) { if (found >= 0) bad("nothing, expected %s", w); }
		else if (found < 0) { if (!direct) bad("%s, expected nothing", p); }
		else {
			if (!realpath(p, real)) strcpy(real, p);
			if (strncmp(w + 4, real, strlen(real)) || w[4 + strlen(real)] != '\n') bad("%s, expected %s", p, w);
		}
		free(p);
	}
	desc[base] = 0;
}
static void paths(int part, int nparts, int maxlen, int decoys) {
	long id = 0;
	for (int len = 0; len <= maxlen; ++len) {
		int total = 1;
		for (int j = 0; j < len; ++j) total *= NCOMP;
		for (int c = 0; c < total; ++c) {
			if (id++ % nparts != part) continue;
			int comp[8], x = c;
			char path[4096] = "";
			for (int j = 0; j < len; ++j) {
				comp[j] = x % NCOMP, x /= NCOMP;
				if (j) strcat(path, ":");
				strcat(path, comp[j] == C_D1 ? join(dir, "d1") : comp[j] == C_D2 ? join(dir, "d2") : comp[j] == C_EMPTY ? "" : comp[j] == C_DOT ? "." : comp[j] == C_R ? "r" : join(dir, "none"));
			}
			if (len == 0) comp[0] = C_EMPTY; // PATH= means the current directory
			int clen = len ? len : 1;
			setenv("PATH", path, 1);
			for (int chdir = 0; chdir < 2; ++chdir) {
				int rel[6], nrel = 0;
				for (int p = 0; p < 6; ++p) for (int j = 0; j < clen; ++j) if (comp_place(comp[j], chdir) == p) { rel[nrel++] = p; break; }
				int nst = 1;
				for (int j = 0; j < nrel; ++j) nst *= NSTATES;
				for (int decoy = 0; decoy < decoys; ++decoy) for (int s = 0; s < nst; ++s) {
					++nstates;
					for (int p = 0; p < 6; ++p) { int is = 0; for (int j = 0; j < nrel; ++j) is |= rel[j] == p; if (!is) put(p, decoy ? NONE : EXEC); }
					for (int j = 0, y = s; j < nrel; ++j, y /= NSTATES) put(rel[j], y % NSTATES);
					int found = -1;
					for (int j = 0; j < clen && found < 0; ++j) { int p = comp_place(comp[j], chdir); if (p >= 0 && cur[p] == EXEC) found = p; }
					int m = snprintf(desc, sizeof desc, "PATH='%s' prog (", path);
					for (int p = 0; p < 6; ++p) m += snprintf(desc + m, sizeof desc - m, "%s%s: %s", p ? ", " : "", place(p), (const char *[]){"nothing", "a program", "a plain file", "a directory"}[cur[p]]);
					snprintf(desc + m, sizeof desc - m, ")");
					judge_path(found, 0, "prog", BFS_SPAWN_USE_PATH, chdir, !chdir);
				}
			}
		}
	}
	// names with slashes, and without a search
	setenv("PATH", join(dir, "d1"), 1);
	for (int chdir = 0; chdir < 2 && part == 0; ++chdir) for (int s = 0; s < NSTATES * NSTATES * NSTATES; ++s) {
		++nstates;
		int at = 2 + chdir;
		put(0, EXEC), put(1, EXEC), put(5 - at, EXEC), put(5 - chdir, EXEC);
		put(at, s % NSTATES); put(4 + chdir, s / NSTATES % NSTATES); put(1, s / NSTATES / NSTATES);
		for (int use = 0; use < 2; ++use) {
			snprintf(desc, sizeof desc, "'./prog' (states %d, PATH %d)", s, use);
			judge_path(cur[at] == EXEC ? at : -1, 1, "./prog", use, chdir, !chdir);
			snprintf(desc, sizeof desc, "'r/prog' (states %d, PATH %d)", s, use);
			judge_path(cur[4 + chdir] == EXEC ? 4 + chdir : -1, 1, "r/prog", use, chdir, !chdir);
			snprintf(desc, sizeof desc, "absolute name (states %d, PATH %d)", s, use);
			judge_path(cur[1] == EXEC ? 1 : -1, 1, join(join(dir, "d2"), "prog"), use, chdir, !chdir);
		}
		snprintf(desc, sizeof desc, "'prog' without PATH lookup (states %d)", s);
		judge_path(cur[at] == EXEC ? at : -1, 1, "prog", 0, chdir, 0);
	}
}

// ---- faults
static void faults(int part, int nparts) {
	// (index into ALL) sequences that succeed
	static const int SEQ[][5] = {{-1}, {0, -1}, {6, -1}, {10, 2, -1}, {21, -1}, {20, 22, -1}, {25, -1}, {27, -1}, {31, -1}, {32, -1}, {27, 21, 22, -1}, {10, 11, 15, 3, -1}, {7, 30, 32, 25, -1}, {11, 27, 31, 23, -1}};
	static const int ERR[] = {EIO, EAGAIN, EMFILE, EINTR};
	setenv("PATH", "r:.", 1);
	put(2, EXEC), put(3, EXEC), put(4, NONE), put(5, EXEC);
	long id = 0;
	for (int q = 0; q < (int)(sizeof SEQ / sizeof *SEQ); ++q) for (int posix = 0; posix < 2; ++posix) for (int use = 0; use < 2; ++use) {
		const struct act *acts[8];
		int k = 0, ch = 0;
		for (; SEQ[q][k] >= 0; ++k) acts[k] = &ALL[SEQ[q][k]], ch |= acts[k]->op == FCHDIR;
		if (id++ % nparts != part) continue;
		const char *exe = use ? "prog" : spy;
		S->at = 0;
		int e = refwant(acts, k, 0, ARGV);
		if (e) { printf("BAD harness: sequence %d fails with %s\n", q, strerror(e)); exit(3); }
		char w[65536];
		memcpy(w, want, sizeof w);
		if (use) { memcpy(w, S->ref, S->refn); tail(w, S->refn, sizeof w, join(dir, ch ? "A/r/prog" : "prog"), ARGV, ENV); }
		describe(acts, k, posix ? "posix_spawn" : "fork");
		int r = spawn(exe, use ? BFS_SPAWN_USE_PATH : 0, posix, acts, k, ARGV, ENV);
		if (r < 0) continue;
		if (r) { bad("%s, expected success", strerror(r)); continue; }
		if (strcmp(got, w)) { bad("the program's state is\n%s--- expected\n%s", got, w); continue; }
		int calls[2] = {S->parent, S->child};
		for (int who = 0; who < 2; ++who) for (int at = 1; at <= calls[who]; ++at) for (int x = 0; x < 4; ++x) {
			++nstates;
			S->who = who; S->at = at; S->err = ERR[x];
			int m = describe(acts, k, posix ? "posix_spawn" : "fork");
			S->what[0] = 0;
			snprintf(desc + m, sizeof desc - m, " when call %d of the %s fails with %s", at, who ? "child" : "parent", strerror(ERR[x]));
			r = spawn(exe, use ? BFS_SPAWN_USE_PATH : 0, posix, acts, k, ARGV, ENV);
			S->at = 0;
			if (r < 0) continue;
			snprintf(desc + strlen(desc), 100, " (%s)", S->what);
			if (!S->hit) continue;
			if (r == 0) { if (strcmp(got, w) && strcmp(S->what, "faccessat")) bad("it succeeds, but the program's state is\n%s--- expected\n%s", got, w); }
			else if (r != S->err && !(!strcmp(S->what, "faccessat") && (r == ENOENT || r == EACCES))) bad("the error is %s", strerror(r));
		}
	}
}
static void exes(void) {
	close(__real_open(join(dir, "plain"), O_CREAT | O_WRONLY, 0644));
	int fd = __real_open(join(dir, "text"), O_CREAT | O_WRONLY, 0755);
	if (write(fd, "hello\n", 6)) {}
	close(fd);
	fd = __real_open(join(dir, "badinterp"), O_CREAT | O_WRONLY, 0755);
	if (write(fd, "#!/nonexistent/x\n", 17)) {}
	close(fd);
	static char big[200000];
	memset(big, 'x', sizeof big - 1);
	struct { const char *exe; int e[3]; char *arg; } T[] = {{"missing", {ENOENT}}, {"plain", {EACCES}}, {"text", {ENOEXEC}}, {"badinterp", {ENOENT}}, {"A", {EACCES}}, {"plain/x", {ENOTDIR}}, {"", {ENOENT}}, {"spy", {E2BIG}, big}};
	// every single action, and pairs with a change of directory
	for (int t = 0; t < 8; ++t) for (int i = -1; i < NALL; ++i) for (int abs = 0; abs < 2; ++abs) for (int posix = 0; posix < 2; ++posix) for (int use = 0; use < 2; ++use) {
		++nstates;
		const struct act *acts[1] = {i < 0 ? NULL : &ALL[i]};
		int k = i >= 0, ch = k && ALL[i].op == FCHDIR;
		if (!abs && ch) continue;
		if (!abs && use && !strchr(T[t].exe, '/')) continue;
		if (abs && !*T[t].exe) continue;
		char *av[] = {(char *)"x", rep, T[t].arg, NULL};
		reference(acts, k, 0);
		describe(acts, k, posix ? "posix_spawn" : "fork");
		snprintf(desc + strlen(desc), 300, " running '%s'", T[t].exe);
		int r = spawn(abs ? join(dir, T[t].exe) : T[t].exe, use, posix, acts, k, av, ENV);
		if (r < 0) continue;
		if (r != T[t].e[0] && !(S->referr && r == S->referr)) bad("%s, expected %s", r ? strerror(r) : "success", strerror(T[t].e[0]));
	}
	// arguments and environment arrive as they are
	static char *AV[][5] = {{"", NULL}, {"a b", "", "*", NULL}, {"\x01\xff\n", "-x", "'\"", NULL}, {"{}", ";", "+", "", NULL}};
	static char *EV[][4] = {{NULL}, {"A=", "B", NULL}, {"A=1\n2", "\xff=\xfe", "=", NULL}};
	for (int a = 0; a < 4; ++a) for (int e = 0; e < 4; ++e) for (int i = -1; i < NALL; ++i) for (int posix = 0; posix < 2; ++posix) {
		++nstates;
		const struct act *acts[1] = {i < 0 ? NULL : &ALL[i]};
		char *av[8] = {(char *)"name", rep};
		for (int j = 0; (av[j + 2] = AV[a][j]); ++j);
		reference(acts, i >= 0, 0);
		if (S->referr) continue;
		memcpy(want, S->ref, S->refn);
		tail(want, S->refn, sizeof want, spy, av, e < 3 ? EV[e] : environ);
		describe(acts, i >= 0, posix ? "posix_spawn" : "fork");
		snprintf(desc + strlen(desc), 300, " with arguments %d, environment %d", a, e);
		int r = spawn(spy, 0, posix, acts, i >= 0, av, e < 3 ? EV[e] : NULL);
		if (r < 0) continue;
		if (r) bad("%s, expected success", strerror(r));
		else if (strcmp(got, want)) bad("the program's state is\n%s--- expected\n%s", got, want);
	}
}
static void hook(int sig, siginfo_t *si, void *arg) { (void)sig; (void)si; (void)arg; }
int main(int argc, char **argv) {
	(void)argc;
	dir = argv[1]; spy = argv[2];
	setvbuf(stdout, NULL, _IOFBF, 65536);
	for (int fd = 3; fd < 64; ++fd) close(fd);
	S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	umask(027);
	if (chdir(dir)) return 3;
	struct rlimit rl = {200, 256};
	if (__real_setrlimit(RLIMIT_NOFILE, &rl)) return 3;
	snprintf(rep, sizeof rep, "%s/report", dir);
	ARGV[0] = (char *)"prog"; ARGV[1] = rep; ARGV[2] = (char *)"x";
	// the caller's own state: a blocked signal, an ignored one, and one with a handler
	sigset_t set; sigemptyset(&set); sigaddset(&set, SIGUSR2); sigprocmask(SIG_BLOCK, &set, NULL);
	signal(SIGHUP, SIG_IGN); signal(SIGPIPE, SIG_DFL);
	sighook(SIGUSR1, hook, NULL, 0);
	sighook(SIGTERM, hook, NULL, 0);
	int layout = !strcmp(argv[3], "seq") ? atoi(argv[4]) : 0;
	#define FD(n, p, f) do { int x = __real_open(p, f, 0600); if (x != (n)) { __real_dup2(x, n); close(x); } } while (0)
	FD(3, "A", O_RDONLY | O_DIRECTORY); FD(4, "f1", O_RDWR); lseek(4, 3, SEEK_SET); FD(5, "f2", O_RDONLY); __real_fcntl(5, F_SETFD, FD_CLOEXEC); lseek(5, 1, SEEK_SET);
	// where the free descriptors are decides where an internal pipe goes
	if (layout == 1) { FD(6, "f3", O_WRONLY); }             // 7, 8 free
	if (layout == 2) { FD(7, "f3", O_WRONLY); }             // 6, 8 free
	if (layout == 3) { FD(6, "f3", O_WRONLY); FD(7, "f2", O_RDONLY); FD(8, "f2", O_RDONLY); FD(9, "f2", O_RDONLY); } // 10, 11 free
	if (layout == 4) { close(3); close(4); }                // 3, 4 free
	if (layout == 5) { close(0); close(5); }                // 0, 5 free
	if (!strcmp(argv[3], "seq")) seq(atoi(argv[5]), atoi(argv[6]), atoi(argv[7]));
	else if (!strcmp(argv[3], "path")) paths(atoi(argv[4]), atoi(argv[5]), atoi(argv[6]), atoi(argv[7]));
	else if (!strcmp(argv[3], "fault")) faults(atoi(argv[4]), atoi(argv[5]));
	else if (!strcmp(argv[3], "exe")) exes();
	clean();
	printf("N %ld %ld %ld\n", n, nstates, nbad);
	fflush(stdout);
	return 0;
}
