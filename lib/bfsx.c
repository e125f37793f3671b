// bfsx: all of bfs, linked with an environment layer, behind a fork server.
//
// Each request on stdin describes one execution: argv, env, cwd, resource
// settings and a set of environment rules.  The execution happens in a forked
// child that calls bfs's own main().  Calls that bfs makes into libc are
// observed (trace) and can be made to fail, be delayed or be altered (rules).
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/sysmacros.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <grp.h>

int bfs_main(int argc, char *argv[]);

#define MAXRULES 256
#define MAXFD 65536
#define TRACESZ (1 << 20)

enum cls {
	C_OPEN, C_GETDENTS, C_STAT, C_READLINK, C_CLOSE, C_UNLINK, C_ACCESS, C_SPAWN,
	C_MALLOC, C_XATTR, C_DUP, C_THREAD, C_PIPE, C_EXEC, C_CHDIR, C_WAIT, C_PWENT, C_FLUSH, C_WRITE, C_FCLOSE, C_N
};
static const char *cls_names[] = {
	"open", "getdents", "stat", "readlink", "close", "unlink", "access", "spawn",
	"malloc", "xattr", "dup", "thread", "pipe", "exec", "chdir", "wait", "pwent", "flush", "write", "fclose",
};

struct rule {
	int cls;
	char path[4200]; // "*" for any
	long from, to;  // occurrence range, 1-based inclusive
	char act;       // 'E' errno, 'D' delay usec, 'V' device, 'L' getdents limit, 'U' dtype unknown, 'R' real-remove then continue
	long arg;
	atomic_long count;
	atomic_long hits;
};

// Attributes that statx() is made to report: "attr k=v,k=v PATH"
struct attr { char *path; char *spec; struct attr *next; };
static struct attr *attrs[4096];
static int nattrs;
// Extended attributes that files are made to have: "xattr INO NAME HEX" or "xattr INO NAME E<errno>" (NAME "*": listing them)
struct xat { unsigned long ino; char *name; char *val; };
static struct xat xats[4096];
static int nxats;
static unsigned hashs(const char *s) { unsigned h = 5381; while (*s) h = h * 33 + (unsigned char)*s++; return h & 4095; }

struct shared {
	int nrules;
	struct rule rules[MAXRULES];
	atomic_size_t tlen;
	char trace[TRACESZ];
	atomic_long calls[C_N];
	long now_sec; long now_nsec; int have_now;
	long arg_max; // 0 = real
	int no_uring;
	int no_statx; // as on an old kernel
	int no_proc;
	char mtab[PATH_MAX];
	int tracing;
	int armed;
	int isatty_mask;
	int nofail_spawn_real; // if 0, spawn for real
	char jail[PATH_MAX];
	char mutation[2048];
	int have_class[C_N];
	volatile uint32_t bnext, bstamp;
};
static struct shared *S;
static bool in_child;
static atomic_bool started;
static char *fdpath[MAXFD];

static int active(void) { return in_child && atomic_load(&started); }

static void trace(const char *fmt, ...) {
	if (!S->tracing) return;
	int e = errno;
	char buf[4600];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
	size_t off = atomic_fetch_add(&S->tlen, n);
	if (off + n < TRACESZ) memcpy(S->trace + off, buf, n);
	errno = e;
}

// textual normalisation: collapse slashes, drop trailing slash
static void norm(char *out, size_t sz, const char *base, const char *path) {
	size_t n = 0;
	const char *parts[2] = {base, path};
	int k = 0;
	if (path[0] == '/') k = 1;
	for (int first = 1; k < 2; ++k, first = 0) {
		const char *p = parts[k];
		if (!p || !*p) continue;
		if (n && out[n - 1] != '/' && n + 1 < sz) out[n++] = '/';
		for (; *p; ++p) {
			if (*p == '/' && n && out[n - 1] == '/') continue;
			if (n + 1 < sz) out[n++] = *p;
		}
	}
	while (n > 1 && out[n - 1] == '/') --n;
	out[n] = 0;
}

static void resolve(char *out, size_t sz, int dirfd, const char *path) {
	if (!path) path = "";
	const char *base = "";
	if (dirfd >= 0 && dirfd < MAXFD && fdpath[dirfd]) base = fdpath[dirfd];
	norm(out, sz, base, path);
}

static char *xdup(const char *s) {
	// must not go through the wrapped malloc
	size_t n = strlen(s) + 1;
	char *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) return NULL;
	memcpy(p, s, n);
	return p;
}
static char *arena, *arena_end;
static atomic_flag arena_lock = ATOMIC_FLAG_INIT;
static char *sdup(const char *s) {
	size_t n = strlen(s) + 1;
	while (atomic_flag_test_and_set(&arena_lock)) {}
	if (!arena || arena + n > arena_end) {
		size_t sz = 1 << 22;
		arena = mmap(NULL, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		arena_end = arena + sz;
	}
	char *p = arena;
	arena += n;
	atomic_flag_clear(&arena_lock);
	memcpy(p, s, n);
	return p;
}

static void setfd(int fd, const char *path) {
	if (fd >= 0 && fd < MAXFD) fdpath[fd] = sdup(path);
}

// Returns errno to inject, or 0
static struct rule *match(int cls, const char *path, char want) {
	if (!S->have_class[cls]) return NULL;
	for (int i = 0; i < S->nrules; ++i) {
		struct rule *r = &S->rules[i];
		if (r->cls != cls) continue;
		if (want ? r->act != want : (r->act != 'E' && r->act != 'D' && r->act != 'M')) continue;
		if (r->path[0] != '*' || r->path[1]) {
			if (strcmp(r->path, path) != 0) continue;
		}
		long c = atomic_fetch_add(&r->count, 1) + 1;
		if (c < r->from || (r->to && c > r->to)) continue;
		atomic_fetch_add(&r->hits, 1);
		return r;
	}
	return NULL;
}

// Someone else changes the hierarchy: "u FILE", "r DIR", "m FROM TO", one per line, relative to the working directory
static void mutate(void) {
	static atomic_bool done;
	if (atomic_exchange(&done, true)) return;
	char buf[2048];
	snprintf(buf, sizeof buf, "%s", S->mutation);
	trace("MUTATE\n");
	for (char *l = buf, *n; l && *l; l = n) {
		n = strchr(l, '\n');
		if (n) *n++ = 0;
		char *a = l + 2, *b = strchr(a, ' ');
		if (b) *b++ = 0;
		long ret = l[0] == 'u' ? syscall(SYS_unlinkat, AT_FDCWD, a, 0) : l[0] == 'r' ? syscall(SYS_unlinkat, AT_FDCWD, a, AT_REMOVEDIR) : syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b);
		if (ret) trace("MUTATE %s failed %d\n", a, errno);
	}
}

static int fault(int cls, const char *path) {
	if (!active()) return 0;
	atomic_fetch_add(&S->calls[cls], 1);
	struct rule *r = match(cls, path, 0);
	if (!r) return 0;
	if (r->act == 'D') {
		int e = errno;
		struct timespec ts = {r->arg / 1000000, (r->arg % 1000000) * 1000};
		nanosleep(&ts, NULL);
		errno = e;
		return 0;
	}
	if (r->act == 'M') {
		int e = errno;
		mutate();
		errno = e;
		return 0;
	}
	trace("INJECT %s %s %ld\n", cls_names[cls], path, r->arg);
	errno = r->arg;
	return r->arg;
}

#define REAL(name) ({ static typeof(&name) f_; if (!f_) f_ = (typeof(&name))dlsym(RTLD_NEXT, #name); f_; })

/* ---- open ---- */
static int do_openat(int dfd, const char *path, int flags, mode_t mode) {
	char full[4400];
	resolve(full, sizeof full, dfd, path);
	if (fault(C_OPEN, full)) return -1;
	int fd = syscall(SYS_openat, dfd, path, flags, mode);
	if (in_child) {
		if (fd >= 0) setfd(fd, full);
		if (active()) trace("open %s = %d %d\n", full, fd, fd < 0 ? errno : 0);
	}
	return fd;
}
#define MODEARG mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *path, int flags, ...) { MODEARG return do_openat(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODEARG return do_openat(AT_FDCWD, path, flags, mode); }
int openat(int dfd, const char *path, int flags, ...) { MODEARG return do_openat(dfd, path, flags, mode); }
int openat64(int dfd, const char *path, int flags, ...) { MODEARG return do_openat(dfd, path, flags, mode); }

int close(int fd) {
	if (active()) {
		const char *p = fd >= 0 && fd < MAXFD && fdpath[fd] ? fdpath[fd] : "?";
		int e = fault(C_CLOSE, p);
		int ret = syscall(SYS_close, fd);
		trace("close %s = %d %d %d\n", p, fd, ret, ret < 0 ? errno : 0);
		if (e) { errno = e; return -1; }
		return ret;
	}
	return syscall(SYS_close, fd);
}

int dup2(int a, int b) {
	if (active() && fault(C_DUP, "*")) return -1;
	int r = syscall(SYS_dup2, a, b);
	if (r >= 0 && a >= 0 && a < MAXFD && fdpath[a]) setfd(b, fdpath[a]);
	return r;
}
int fcntl64(int fd, int cmd, ...) {
	va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
	if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) {
		if (active() && fault(C_DUP, fd >= 0 && fd < MAXFD && fdpath[fd] ? fdpath[fd] : "?")) return -1;
		int r = syscall(SYS_fcntl, fd, cmd, arg);
		if (r >= 0 && active()) {
			const char *p = fd >= 0 && fd < MAXFD && fdpath[fd] ? fdpath[fd] : "?";
			setfd(r, p);
			trace("open %s = %d 0\n", p, r);
		}
		return r;
	}
	return syscall(SYS_fcntl, fd, cmd, arg);
}
int fcntl(int fd, int cmd, ...) {
	va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
	return fcntl64(fd, cmd, arg);
}
int pipe2(int p[2], int flags) {
	if (active() && fault(C_PIPE, "*")) return -1;
	int r = syscall(SYS_pipe2, p, flags);
	if (r == 0 && active()) { setfd(p[0], "<pipe>"); setfd(p[1], "<pipe>"); trace("open <pipe> = %d 0\nopen <pipe> = %d 0\n", p[0], p[1]); }
	return r;
}
int pipe(int p[2]) { return pipe2(p, 0); }

/* ---- directories ---- */
ssize_t getdents64(int fd, void *buf, size_t n) {
	char *p = fd >= 0 && fd < MAXFD && fdpath[fd] ? fdpath[fd] : "?";
	if (active()) {
		if (fault(C_GETDENTS, p)) return -1;
		struct rule *r = match(C_GETDENTS, p, 'L');
		if (r && (size_t)r->arg < n) n = r->arg;
	}
	ssize_t ret = syscall(SYS_getdents64, fd, buf, n);
	if (active()) {
		if (ret > 0 && match(C_GETDENTS, p, 'U')) {
			for (ssize_t i = 0; i < ret;) {
				struct dirent64 *de = (struct dirent64 *)((char *)buf + i);
				de->d_type = DT_UNKNOWN;
				i += de->d_reclen;
			}
		}
		trace("getdents %s = %zd %d\n", p, ret, ret < 0 ? errno : 0);
	}
	return ret;
}

/* ---- stat ---- */
static void devrule(const char *full, struct statx *sx) {
	if (!S->have_class[C_STAT]) return;
	// longest matching prefix 'V' rule: path itself or below it
	struct rule *best = NULL;
	size_t bl = 0;
	for (int i = 0; i < S->nrules; ++i) {
		struct rule *r = &S->rules[i];
		if (r->cls != C_STAT || r->act != 'V') continue;
		size_t l = strlen(r->path);
		if (strncmp(full, r->path, l) == 0 && (full[l] == 0 || full[l] == '/')) {
			if (!best || l > bl) { best = r; bl = l; }
		}
	}
	if (best) {
		long dev = best->arg, mnt = best->arg;
		if (dev >= 1000000000L) { mnt = dev % 1000000; dev = dev / 1000000 % 1000; } // 1e9 + dev * 1e6 + mount
		sx->stx_dev_major = 200 + dev / 1000;
		sx->stx_dev_minor = dev % 1000;
		sx->stx_mnt_id = 900000 + mnt;
	}
}
static void attrrule(const char *full, struct statx *sx) {
	if (!nattrs) return;
	while (full[0] == '.' && full[1] == '/') full += 2;
	struct attr *a = attrs[hashs(full)];
	while (a && strcmp(a->path, full)) a = a->next;
	if (!a) return;
	for (const char *p = a->spec; *p;) {
		const char *e = strchr(p, '='); if (!e) break;
		int k = e - p; char *q;
		unsigned long long v = strtoull(e + 1, &q, 0);
		long long sv = strtoll(e + 1, NULL, 0); unsigned long ns = 0;
		if (*q == '.') ns = strtoul(q + 1, &q, 10);
#define K(x) (k == sizeof(x) - 1 && !memcmp(p, x, k))
#define TS(f) do { sx->f.tv_sec = sv; sx->f.tv_nsec = ns; } while (0)
		if (K("size")) sx->stx_size = v;
		else if (K("blocks")) sx->stx_blocks = v;
		else if (K("nlink")) sx->stx_nlink = v;
		else if (K("ino")) sx->stx_ino = v;
		else if (K("uid")) sx->stx_uid = v;
		else if (K("gid")) sx->stx_gid = v;
		else if (K("mode")) sx->stx_mode = v;
		else if (K("perm")) sx->stx_mode = (sx->stx_mode & S_IFMT) | v;
		else if (K("rdev")) { sx->stx_rdev_major = v >> 8; sx->stx_rdev_minor = v & 255; }
		else if (K("dev")) { sx->stx_dev_major = 200 + v / 1000; sx->stx_dev_minor = v % 1000; }
		else if (K("atime")) TS(stx_atime);
		else if (K("mtime")) TS(stx_mtime);
		else if (K("ctime")) TS(stx_ctime);
		else if (K("btime")) { TS(stx_btime); sx->stx_mask |= STATX_BTIME; }
		else if (K("nobtime")) sx->stx_mask &= ~STATX_BTIME;
		p = q; if (*p == ',') ++p;
	}
}
// Device rules are keyed by the real object: resolve links
static void devrules(int dfd, const char *path, int flags, struct statx *sx) {
	bool has = false;
	for (int i = 0; i < S->nrules; ++i) has |= S->rules[i].cls == C_STAT && S->rules[i].act == 'V';
	if (!has) return;
	int e = errno;
	char rp[PATH_MAX], cwd[PATH_MAX], link[64];
	int fd = syscall(SYS_openat, dfd, path, O_PATH | O_CLOEXEC | ((flags & AT_SYMLINK_NOFOLLOW) ? O_NOFOLLOW : 0), 0);
	if (path[0] == 0) fd = syscall(SYS_fcntl, dfd, F_DUPFD_CLOEXEC, 0);
	if (fd >= 0) {
		snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
		ssize_t n = syscall(SYS_readlink, link, rp, sizeof rp - 1);
		syscall(SYS_close, fd);
		if (n > 0 && getcwd(cwd, sizeof cwd)) {
			rp[n] = 0;
			size_t cl = strlen(cwd);
			if (strncmp(rp, cwd, cl) == 0 && rp[cl] == '/') devrule(rp + cl + 1, sx);
			else devrule(rp, sx);
		}
	}
	errno = e;
}
int statx(int dfd, const char *path, int flags, unsigned mask, struct statx *sx) {
	if (active() && S->no_statx) { errno = ENOSYS; return -1; }
	char full[4400];
	resolve(full, sizeof full, dfd, path);
	if (active() && fault(C_STAT, full)) return -1;
	int ret = syscall(SYS_statx, dfd, path, flags, mask, sx);
	if (active()) {
		trace("stat %s%s = %d %d\n", full, (flags & AT_SYMLINK_NOFOLLOW) ? "" : " F", ret, ret < 0 ? errno : 0);
		if (ret == 0) {
			attrrule(full, sx);
			if (S->have_class[C_STAT]) {
				devrules(dfd, path, flags, sx);
			}
		}
	}
	return ret;
}
int fstatat64(int dfd, const char *path, struct stat64 *sb, int flags) {
	char full[4400];
	resolve(full, sizeof full, dfd, path);
	if (active() && fault(C_STAT, full)) return -1;
	int ret = syscall(SYS_newfstatat, dfd, path, sb, flags);
	if (active() && ret == 0 && (nattrs || S->have_class[C_STAT]) && S->no_statx) {
		struct statx x = {.stx_size = sb->st_size, .stx_blocks = sb->st_blocks, .stx_nlink = sb->st_nlink, .stx_ino = sb->st_ino, .stx_uid = sb->st_uid, .stx_gid = sb->st_gid, .stx_mode = sb->st_mode,
			.stx_rdev_major = major(sb->st_rdev), .stx_rdev_minor = minor(sb->st_rdev), .stx_dev_major = major(sb->st_dev), .stx_dev_minor = minor(sb->st_dev),
			.stx_atime = {sb->st_atim.tv_sec, sb->st_atim.tv_nsec}, .stx_mtime = {sb->st_mtim.tv_sec, sb->st_mtim.tv_nsec}, .stx_ctime = {sb->st_ctim.tv_sec, sb->st_ctim.tv_nsec}};
		attrrule(full, &x);
		if (S->have_class[C_STAT]) devrules(dfd, path, flags, &x);
		sb->st_size = x.stx_size; sb->st_blocks = x.stx_blocks; sb->st_nlink = x.stx_nlink; sb->st_ino = x.stx_ino; sb->st_uid = x.stx_uid; sb->st_gid = x.stx_gid; sb->st_mode = x.stx_mode;
		sb->st_rdev = makedev(x.stx_rdev_major, x.stx_rdev_minor); sb->st_dev = makedev(x.stx_dev_major, x.stx_dev_minor);
		sb->st_atim.tv_sec = x.stx_atime.tv_sec; sb->st_atim.tv_nsec = x.stx_atime.tv_nsec;
		sb->st_mtim.tv_sec = x.stx_mtime.tv_sec; sb->st_mtim.tv_nsec = x.stx_mtime.tv_nsec;
		sb->st_ctim.tv_sec = x.stx_ctime.tv_sec; sb->st_ctim.tv_nsec = x.stx_ctime.tv_nsec;
	}
	if (active()) trace("stat %s%s = %d %d\n", full, (flags & AT_SYMLINK_NOFOLLOW) ? "" : " F", ret, ret < 0 ? errno : 0);
	return ret;
}
int fstatat(int dfd, const char *path, struct stat *sb, int flags) { return fstatat64(dfd, path, (struct stat64 *)sb, flags); }

ssize_t readlinkat(int dfd, const char *path, char *buf, size_t n) {
	char full[4400];
	resolve(full, sizeof full, dfd, path);
	if (active() && fault(C_READLINK, full)) return -1;
	return syscall(SYS_readlinkat, dfd, path, buf, n);
}
ssize_t readlink(const char *path, char *buf, size_t n) { return readlinkat(AT_FDCWD, path, buf, n); }
int faccessat(int dfd, const char *path, int mode, int flags) {
	char full[4400];
	resolve(full, sizeof full, dfd, path);
	if (active() && fault(C_ACCESS, full)) return -1;
	if (active() && S->no_proc && !strncmp(path, "/proc/", 6)) { errno = ENOENT; return -1; }
	return REAL(faccessat)(dfd, path, mode, flags);
}

/* ---- extended attributes, mount table ---- */
#include <mntent.h>
FILE *setmntent(const char *path, const char *mode) {
	if (active() && S->mtab[0]) path = S->mtab;
	static FILE *(*real)(const char *, const char *);
	if (!real) real = dlsym(RTLD_NEXT, "setmntent");
	return real(path, mode);
}
static int xobj(const char *path, bool follow, unsigned long *ino) {
	if (S->no_proc && !strncmp(path, "/proc/", 6)) { errno = ENOENT; return -1; }
	struct statx sx;
	if (syscall(SYS_statx, AT_FDCWD, path, follow ? 0 : AT_SYMLINK_NOFOLLOW, STATX_INO, &sx) != 0) return -1;
	*ino = sx.stx_ino;
	return 0;
}
static ssize_t xget(const char *path, const char *name, void *buf, size_t n, bool follow) {
	unsigned long ino;
	if (xobj(path, follow, &ino) != 0) return -1;
	for (int i = 0; i < nxats; ++i) {
		if (xats[i].ino != ino || strcmp(xats[i].name, name)) continue;
		const char *v = xats[i].val;
		if (*v == 'E') { errno = atoi(v + 1); return -1; }
		size_t l = strlen(v) / 2;
		if (!n) return l;
		if (n < l) { errno = ERANGE; return -1; }
		for (size_t k = 0; k < l; ++k) { unsigned x; sscanf(v + 2 * k, "%2x", &x); ((unsigned char *)buf)[k] = x; }
		return l;
	}
	errno = ENODATA;
	return -1;
}
static ssize_t xlist(const char *path, char *buf, size_t n, bool follow) {
	unsigned long ino;
	if (xobj(path, follow, &ino) != 0) return -1;
	size_t l = 0;
	for (int i = 0; i < nxats; ++i) {
		if (xats[i].ino != ino) continue;
		if (!strcmp(xats[i].name, "*")) { errno = atoi(xats[i].val + 1); return -1; }
		size_t k = strlen(xats[i].name) + 1;
		if (n && l + k > n) { errno = ERANGE; return -1; }
		if (n) memcpy(buf + l, xats[i].name, k);
		l += k;
	}
	return l;
}
ssize_t getxattr(const char *p, const char *k, void *b, size_t n) { return active() && nxats ? xget(p, k, b, n, true) : syscall(SYS_getxattr, p, k, b, n); }
ssize_t lgetxattr(const char *p, const char *k, void *b, size_t n) { return active() && nxats ? xget(p, k, b, n, false) : syscall(SYS_lgetxattr, p, k, b, n); }
ssize_t listxattr(const char *p, char *b, size_t n) { return active() && nxats ? xlist(p, b, n, true) : syscall(SYS_listxattr, p, b, n); }
ssize_t llistxattr(const char *p, char *b, size_t n) { return active() && nxats ? xlist(p, b, n, false) : syscall(SYS_llistxattr, p, b, n); }

/* ---- removal: never outside the jail ---- */
static bool jailed(int dfd, const char *path) {
	if (!S->jail[0]) return false;
	char dir[PATH_MAX], link[64], rp[PATH_MAX];
	// parent directory of path, resolved by the kernel
	char tmp[PATH_MAX];
	snprintf(tmp, sizeof tmp, "%s", path);
	size_t n = strlen(tmp);
	while (n > 1 && tmp[n - 1] == '/') tmp[--n] = 0;
	char *slash = strrchr(tmp, '/');
	const char *last = slash ? slash + 1 : tmp;
	if (!strcmp(last, "..")) { snprintf(dir, sizeof dir, "%s/..", path); }
	else if (!slash) snprintf(dir, sizeof dir, ".");
	else if (slash == tmp) snprintf(dir, sizeof dir, "/");
	else { *slash = 0; snprintf(dir, sizeof dir, "%s", tmp); }
	int fd = syscall(SYS_openat, dfd, dir, O_PATH | O_CLOEXEC | O_DIRECTORY, 0);
	if (fd < 0) return true; // will fail by itself
	snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
	ssize_t m = syscall(SYS_readlink, link, rp, sizeof rp - 1);
	if (m <= 0 && errno == ENAMETOOLONG) {
		// too deep to have a name: climb up
		struct stat js, a, b;
		bool in = false;
		if (fstatat(AT_FDCWD, S->jail, &js, 0) == 0 && fstat(fd, &a) == 0) {
			for (int i = 0; i < 5000; ++i) {
				if (a.st_dev == js.st_dev && a.st_ino == js.st_ino) { in = true; break; }
				int up = syscall(SYS_openat, fd, "..", O_PATH | O_CLOEXEC | O_DIRECTORY, 0);
				if (up < 0) break;
				syscall(SYS_close, fd);
				fd = up;
				if (fstat(fd, &b) != 0 || (a.st_dev == b.st_dev && a.st_ino == b.st_ino)) break;
				a = b;
			}
		}
		syscall(SYS_close, fd);
		return in;
	}
	syscall(SYS_close, fd);
	if (m <= 0) return false;
	rp[m] = 0;
	size_t jl = strlen(S->jail);
	return strncmp(rp, S->jail, jl) == 0 && (rp[jl] == 0 || rp[jl] == '/');
}
static int do_unlinkat(int dfd, const char *path, int flags) {
	char full[4400];
	resolve(full, sizeof full, dfd, path);
	if (active()) {
		if (fault(C_UNLINK, full)) { trace("unlink %s %s = -1 %d\n", full, (flags & AT_REMOVEDIR) ? "d" : "f", errno); return -1; }
	}
	if (!jailed(dfd, path)) {
		trace("ESCAPE %s\n", full);
		errno = EPERM;
		return -1;
	}
	int ret = syscall(SYS_unlinkat, dfd, path, flags);
	if (active()) trace("unlink %s %s = %d %d\n", full, (flags & AT_REMOVEDIR) ? "d" : "f", ret, ret < 0 ? errno : 0);
	return ret;
}
int unlinkat(int dfd, const char *path, int flags) { return do_unlinkat(dfd, path, flags); }
int unlink(const char *path) { return do_unlinkat(AT_FDCWD, path, 0); }
int rmdir(const char *path) { return do_unlinkat(AT_FDCWD, path, AT_REMOVEDIR); }
int remove(const char *path) {
	int r = do_unlinkat(AT_FDCWD, path, 0);
	if (r && errno == EISDIR) r = do_unlinkat(AT_FDCWD, path, AT_REMOVEDIR);
	return r;
}
int rename(const char *a, const char *b) { trace("ESCAPE rename %s %s\n", a, b); errno = EPERM; return -1; }
int renameat(int x, const char *a, int y, const char *b) { trace("ESCAPE rename %s %s\n", a, b); errno = EPERM; return -1; }

/* ---- processes ---- */
static void trace_argv(const char *what, const char *path, char *const argv[]) {
	if (!S->tracing) return;
	int n = 0;
	while (argv && argv[n]) ++n;
	trace("%s %s argc=%d\n", what, path, n);
}
// 'A': E2BIG for more than arg arguments; 'B': for more than arg bytes of them
static bool toobig(char *const argv[]) {
	if (!S->have_class[C_SPAWN]) return false;
	long n = 0, b = 0;
	for (; argv[n]; ++n) b += strlen(argv[n]) + 1 + sizeof(char *);
	for (int i = 0; i < S->nrules; ++i) {
		struct rule *r = &S->rules[i];
		if (r->cls != C_SPAWN) continue;
		if ((r->act == 'A' && n > r->arg) || (r->act == 'B' && b > r->arg)) { atomic_fetch_add(&r->hits, 1); return true; }
	}
	return false;
}
int posix_spawn(pid_t *pid, const char *path, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) {
	if (active()) {
		trace_argv("spawn", path, argv);
		int e = fault(C_SPAWN, path);
		if (e) return e;
		if (toobig(argv)) return E2BIG;
	}
	return REAL(posix_spawn)(pid, path, fa, at, argv, envp);
}
int posix_spawnp(pid_t *pid, const char *path, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) {
	if (active()) {
		trace_argv("spawn", path, argv);
		int e = fault(C_SPAWN, path);
		if (e) return e;
		if (toobig(argv)) return E2BIG;
	}
	return REAL(posix_spawnp)(pid, path, fa, at, argv, envp);
}
pid_t fork(void) {
	if (active() && fault(C_SPAWN, "<fork>")) return -1;
	return REAL(fork)();
}
pid_t _Fork(void) {
	if (active() && fault(C_SPAWN, "<fork>")) return -1;
	return REAL(_Fork)();
}
int execve(const char *path, char *const argv[], char *const envp[]) {
	if (active()) {
		trace_argv("exec", path, argv);
		if (fault(C_EXEC, path)) return -1;
		if (toobig(argv)) { errno = E2BIG; return -1; }
	}
	return syscall(SYS_execve, path, argv, envp);
}
int fchdir(int fd) {
	if (active() && fault(C_CHDIR, fd >= 0 && fd < MAXFD && fdpath[fd] ? fdpath[fd] : "?")) return -1;
	return syscall(SYS_fchdir, fd);
}
pid_t waitpid(pid_t pid, int *st, int opt) {
	if (active() && fault(C_WAIT, "*")) return -1;
	return syscall(SYS_wait4, pid, st, opt, NULL);
}
long sysconf(int name) {
	if (active() && name == _SC_ARG_MAX && S->arg_max) return S->arg_max;
	return REAL(sysconf)(name);
}
int isatty(int fd) {
	if (active() && fd >= 0 && fd < 3) { if (S->isatty_mask & (1 << fd)) return 1; errno = ENOTTY; return 0; }
	return REAL(isatty)(fd);
}
int clock_gettime(clockid_t c, struct timespec *ts) {
	if (active() && S->have_now && c == CLOCK_REALTIME) { ts->tv_sec = S->now_sec; ts->tv_nsec = S->now_nsec; return 0; }
	return syscall(SYS_clock_gettime, c, ts);
}
time_t time(time_t *t) {
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (t) *t = ts.tv_sec;
	return ts.tv_sec;
}
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
	if (active()) { int e = fault(C_THREAD, "*"); if (e) return e; }
	return REAL(pthread_create)(t, a, fn, arg);
}

/* ---- liburing: optionally absent ---- */
struct io_uring; struct io_uring_params;
int io_uring_queue_init_params(unsigned n, struct io_uring *r, struct io_uring_params *p) {
	if (S && S->no_uring) return -ENOSYS;
	static int (*f)(unsigned, struct io_uring *, struct io_uring_params *);
	if (!f) f = dlsym(RTLD_NEXT, "io_uring_queue_init_params");
	return f ? f(n, r, p) : -ENOSYS;
}

/* ---- allocation (references from bfs's own objects only, via --wrap) ---- */
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
int __real_posix_memalign(void **, size_t, size_t); void *__real_aligned_alloc(size_t, size_t);
char *__real_strdup(const char *); char *__real_strndup(const char *, size_t);
ssize_t __real_getdelim(char **, size_t *, int, FILE *);
static bool mfail(void) {
	if (!active()) return false;
	return fault(C_MALLOC, "*") != 0;
}
void *__wrap_malloc(size_t n) { if (mfail()) return NULL; return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (mfail()) return NULL; return __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { if (mfail()) return NULL; return __real_realloc(p, n); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { if (mfail()) return ENOMEM; return __real_posix_memalign(p, a, n); }
void *__wrap_aligned_alloc(size_t a, size_t n) { if (mfail()) return NULL; return __real_aligned_alloc(a, n); }
char *__wrap_strdup(const char *s) { if (mfail()) return NULL; return __real_strdup(s); }
char *__wrap_strndup(const char *s, size_t n) { if (mfail()) return NULL; return __real_strndup(s, n); }

/* ---- writes and closes that libc makes itself (stdio): trapped by seccomp ---- */
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <stddef.h>
#include <ucontext.h>
extern char rawsys_end[];
long rawsys(long n, long a, long b, long c);
__asm__(".text\n.globl rawsys\n.type rawsys,@function\nrawsys:\nmov %rdi,%rax\nmov %rsi,%rdi\nmov %rdx,%rsi\nmov %rcx,%rdx\nsyscall\n.globl rawsys_end\nrawsys_end:\nret\n");
static void on_sigsys(int sig, siginfo_t *info, void *uc) {
	int e = errno;
	greg_t *g = ((ucontext_t *)uc)->uc_mcontext.gregs;
	long nr = g[REG_RAX]; int fd = g[REG_RDI];
	const char *p = fd == 1 ? "<stdout>" : fd == 2 ? "<stderr>" : fd >= 0 && fd < MAXFD && fdpath[fd] ? fdpath[fd] : "?";
	bool cl = nr == SYS_close;
	int err = fault(cl ? C_FCLOSE : C_WRITE, p);
	long ret;
	if (err && !cl) ret = -err;
	else if (nr == SYS_write) {
		size_t n = g[REG_RDX];
		struct rule *r = match(C_WRITE, p, 'W');
		if (r && n > (size_t)r->arg) n = r->arg;
		ret = rawsys(nr, fd, g[REG_RSI], n);
	} else ret = rawsys(nr, fd, g[REG_RSI], g[REG_RDX]);
	if (err) ret = -err;
	trace("%s %s = %ld\n", cl ? "fclose" : "write", p, ret);
	g[REG_RAX] = ret;
	errno = e;
}
static void trap_writes(void) {
	struct sigaction sa = {.sa_sigaction = on_sigsys, .sa_flags = SA_SIGINFO | SA_NODEFER};
	sigaction(SIGSYS, &sa, NULL);
	uint64_t ip = (uintptr_t)rawsys_end;
	struct sock_filter f[] = {
		BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)),
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_write, 3, 0),
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_writev, 2, 0),
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, S->have_class[C_FCLOSE] ? SYS_close : SYS_writev, 1, 0),
		BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
		BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer)),
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)ip, 0, 2),
		BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4),
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)(ip >> 32), 1, 0),
		BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP),
		BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
	};
	struct sock_fprog p = {sizeof f / sizeof *f, f};
	if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p)) _exit(93);
}

/* ---- server ---- */
extern void __asan_init(void) __attribute__((weak));
static void die(const char *s) { dprintf(2, "bfsx: %s: %s\n", s, strerror(errno)); _exit(99); }
static void rd(void *p, size_t n) {
	char *c = p;
	while (n) { ssize_t r = read(0, c, n); if (r <= 0) { if (r < 0 && errno == EINTR) continue; _exit(0); } c += r; n -= r; }
}
static void wr(const void *p, size_t n) {
	const char *c = p;
	while (n) { ssize_t r = write(1, c, n); if (r <= 0) { if (r < 0 && errno == EINTR) continue; _exit(0); } c += r; n -= r; }
}
static uint32_t rd32(void) { uint32_t v; rd(&v, 4); return v; }
static char *buf; static size_t bufsz, bufpos;
static char *field(void) { // netstring-like: u32 len + bytes, NUL-terminated in memory
	uint32_t n = rd32();
	if (bufpos + n + 1 > bufsz) die("request too large");
	char *p = buf + bufpos;
	rd(p, n);
	p[n] = 0;
	bufpos += n + 1;
	return p;
}
static void wrblob(int fd) {
	struct stat sb;
	fstat(fd, &sb);
	uint32_t n = sb.st_size;
	wr(&n, 4);
	static char tmp[65536];
	off_t off = 0;
	while (off < sb.st_size) {
		ssize_t r = pread(fd, tmp, sizeof tmp, off);
		if (r <= 0) die("pread");
		wr(tmp, r);
		off += r;
	}
}

int main(void) {
	S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	bufsz = 64 << 20;
	buf = mmap(NULL, bufsz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	sigset_t chld;
	sigemptyset(&chld);
	sigaddset(&chld, SIGCHLD);
	sigprocmask(SIG_BLOCK, &chld, NULL);
	prctl(PR_SET_CHILD_SUBREAPER, 1);
	if (mkdir("/dev/shm", 01777)) {}
	while (1) {
		bufpos = 0;
		uint32_t nargs = rd32();
		// Batch mode: many command lines run one after another in one child
		uint32_t nbatch = 0, bhangs = 0;
		char ***bargv = NULL; uint32_t *bargc = NULL;
		if (nargs == 0xffffffffu) {
			nbatch = rd32();
			bargv = malloc(nbatch * sizeof *bargv); bargc = malloc(nbatch * sizeof *bargc);
			for (uint32_t b = 0; b < nbatch; ++b) {
				bargc[b] = rd32();
				bargv[b] = malloc((bargc[b] + 1) * sizeof(char *));
				for (uint32_t i = 0; i < bargc[b]; ++i) bargv[b][i] = field();
				bargv[b][bargc[b]] = NULL;
			}
			nargs = 0;
		}
		char *argv[nargs + 1];
		for (uint32_t i = 0; i < nargs; ++i) argv[i] = field();
		argv[nargs] = NULL;
		uint32_t nenv = rd32();
		char *envv[nenv + 1];
		for (uint32_t i = 0; i < nenv; ++i) envv[i] = field();
		envv[nenv] = NULL;
		char *cwd = field();
		uint32_t nopt = rd32();
		nattrs = 0; nxats = 0; S->no_proc = 0; S->mtab[0] = 0; memset(attrs, 0, sizeof attrs);
		S->nrules = 0; S->tlen = 0; S->have_now = 0; S->arg_max = 0; S->no_uring = 0; S->no_statx = 0; S->tracing = 0; S->isatty_mask = 0; S->jail[0] = 0; S->mutation[0] = 0;
		for (int i = 0; i < C_N; ++i) { S->calls[i] = 0; S->have_class[i] = 0; }
		long nofile = 0, nofile_hard = 0, timeout_ms = 10000, uid = 0, um = 022, fsize = -1, stack = 0;
		int closed = 0; char *outfile = NULL; char *errfile = NULL; char *in = NULL; size_t inlen = 0; int sigpipe_ign = 0; int fszmode = 0; int cpu1 = 0;
		for (uint32_t i = 0; i < nopt; ++i) {
			size_t before = bufpos;
			char *o = field();
			size_t olen = bufpos - before - 1;
			if (!strncmp(o, "rule ", 5)) {
				struct rule *r = &S->rules[S->nrules++];
				if (S->nrules > MAXRULES) die("rules");
				char c[32]; int off = 0; char act;
				if (sscanf(o, "rule %31s %ld %ld %c%ld %n", c, &r->from, &r->to, &act, &r->arg, &off) < 5) die("bad rule");
				r->cls = -1;
				for (int k = 0; k < C_N; ++k) if (!strcmp(cls_names[k], c)) r->cls = k;
				if (r->cls < 0) die("bad rule class");
				S->have_class[r->cls] = 1;
				r->act = act; r->count = 0; r->hits = 0;
				snprintf(r->path, sizeof r->path, "%s", o + off);
			} else if (!strncmp(o, "attr ", 5)) {
				char *sp = o + 5, *pa = strchr(sp, ' '); if (!pa) die("bad attr");
				*pa++ = 0;
				struct attr *a = (struct attr *)(((uintptr_t)buf + bufpos + 15) & ~(uintptr_t)15);
				bufpos = (char *)(a + 1) - buf;
				unsigned h = hashs(pa);
				a->path = pa; a->spec = sp; a->next = attrs[h]; attrs[h] = a; ++nattrs;
			} else if (!strncmp(o, "nofile ", 7)) { nofile_hard = 0; sscanf(o + 7, "%ld %ld", &nofile, &nofile_hard); if (!nofile_hard) nofile_hard = nofile; }
			else if (!strncmp(o, "timeout ", 8)) timeout_ms = atol(o + 8);
			else if (!strncmp(o, "uid ", 4)) uid = atol(o + 4);
			else if (!strncmp(o, "umask ", 6)) um = strtol(o + 6, NULL, 8);
			else if (!strncmp(o, "now ", 4)) { sscanf(o + 4, "%ld %ld", &S->now_sec, &S->now_nsec); S->have_now = 1; }
			else if (!strncmp(o, "argmax ", 7)) S->arg_max = atol(o + 7);
			else if (!strncmp(o, "fsize ", 6)) fsize = atol(o + 6);
			else if (!strncmp(o, "stack ", 6)) stack = atol(o + 6);
			else if (!strcmp(o, "nouring")) S->no_uring = 1;
			else if (!strncmp(o, "xattr ", 6)) {
				if (nxats >= 4096) die("xattrs");
				struct xat *x = &xats[nxats++]; char *q;
				x->ino = strtoul(o + 6, &q, 10); x->name = ++q;
				q = strchr(q, ' '); if (!q) die("bad xattr");
				*q++ = 0; x->val = q;
			} else if (!strncmp(o, "mtab ", 5)) snprintf(S->mtab, sizeof S->mtab, "%s", o + 5);
			else if (!strcmp(o, "noproc")) S->no_proc = 1;
			else if (!strcmp(o, "nostatx")) S->no_statx = 1;
			else if (!strcmp(o, "trace")) S->tracing = 1;
			else if (!strncmp(o, "tty ", 4)) S->isatty_mask = atoi(o + 4);
			else if (!strncmp(o, "jail ", 5)) snprintf(S->jail, sizeof S->jail, "%s", o + 5);
			else if (!strncmp(o, "mutate ", 7)) snprintf(S->mutation, sizeof S->mutation, "%s", o + 7);
			else if (!strncmp(o, "closed ", 7)) closed = atoi(o + 7);
			else if (!strncmp(o, "outfile ", 8)) outfile = o + 8;
			else if (!strncmp(o, "errfile ", 8)) errfile = o + 8;
			else if (!strncmp(o, "stdin ", 6)) { in = o + 6; inlen = olen - 6; }
			else if (!strcmp(o, "sigpipe_ign")) sigpipe_ign = 1;
			else if (!strcmp(o, "cpu1")) cpu1 = 1;
			else die("bad option");
		}
		S->bnext = 0;
		int rfd = -1;
		if (nbatch) { rfd = memfd_create("r", MFD_CLOEXEC); if (rfd < 0) die("memfd"); }
	again:;
		int ofd = memfd_create("o", MFD_CLOEXEC), efd = memfd_create("e", MFD_CLOEXEC);
		if (ofd < 0 || efd < 0) die("memfd");
		pid_t pid = (pid_t)REAL(fork)();
		if (pid < 0) die("fork");
		if (pid == 0) {
			in_child = true;
			sigprocmask(SIG_UNBLOCK, &chld, NULL);
			setpgid(0, 0);
			if (in) {
				int ifd = memfd_create("i", 0);
				if (write(ifd, in, inlen) != (ssize_t)inlen) _exit(98);
				lseek(ifd, 0, SEEK_SET);
				syscall(SYS_dup2, ifd, 0);
				syscall(SYS_close, ifd);
			} else {
				int nfd = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDONLY, 0);
				syscall(SYS_dup2, nfd, 0);
				syscall(SYS_close, nfd);
			}
			if (outfile) { int f = syscall(SYS_openat, AT_FDCWD, outfile, O_WRONLY | O_CREAT | O_TRUNC, 0666); if (f < 0) _exit(97); syscall(SYS_dup2, f, 1); syscall(SYS_close, f); }
			else syscall(SYS_dup2, ofd, 1);
			if (errfile) { int f = syscall(SYS_openat, AT_FDCWD, errfile, O_WRONLY | O_CREAT | O_TRUNC, 0666); if (f < 0) _exit(97); syscall(SYS_dup2, f, 2); syscall(SYS_close, f); }
			else syscall(SYS_dup2, efd, 2);
			syscall(SYS_close, ofd);
			syscall(SYS_close, efd);
			// nothing else may be open
			if (nbatch) { syscall(SYS_dup2, rfd, 1000); syscall(SYS_close_range, 3, 999, 0); syscall(SYS_close_range, 1001, ~0U, 0); }
			else syscall(SYS_close_range, 3, ~0U, 0);
			for (int i = 0; i < 3; ++i) if (closed & (1 << i)) syscall(SYS_close, i);
			if (chdir(cwd) != 0) _exit(96);
			umask(um);
			if (nofile) { struct rlimit rl = {nofile, nofile_hard}; setrlimit(RLIMIT_NOFILE, &rl); }
			if (stack) { struct rlimit rl = {stack, stack}; setrlimit(RLIMIT_STACK, &rl); }
			struct rlimit lim = {2048UL << 20, 2048UL << 20};
			if (!__asan_init) setrlimit(RLIMIT_DATA, &lim); /* a runaway bfs must not take the machine down */
			if (fsize < 0) { lim.rlim_cur = lim.rlim_max = 32UL << 20; setrlimit(RLIMIT_FSIZE, &lim); }
			if (fsize >= 0) { signal(SIGXFSZ, SIG_IGN); struct rlimit rl = {fsize, fsize}; setrlimit(RLIMIT_FSIZE, &rl); }
			struct rlimit core = {0, 0};
			setrlimit(RLIMIT_CORE, &core);
			if (sigpipe_ign) signal(SIGPIPE, SIG_IGN);
			if (cpu1) { unsigned long m = 1; syscall(SYS_sched_setaffinity, 0, sizeof m, &m); }
			if (uid) { if (setgroups(0, NULL) || setgid(uid) || setuid(uid)) _exit(95); }
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			extern char **environ;
			environ = envv;
			if (S->have_class[C_WRITE] || S->have_class[C_FCLOSE]) trap_writes();
			atomic_store(&started, true);
			while (nbatch && S->bnext < nbatch) {
				uint32_t b = S->bnext;
				int ret = bfs_main(bargc[b], bargv[b]);
				fflush(stdout);
				clearerr(stdout);
				struct stat so, se;
				fstat(1, &so); fstat(2, &se);
				uint32_t h[4] = {W_EXITCODE(ret & 0xff, 0), 0, so.st_size, se.st_size};
				if (write(1000, h, sizeof h) < 0) _exit(94);
				off_t o = 0;
				while (o < so.st_size) if (sendfile(1000, 1, &o, so.st_size - o) <= 0) _exit(94);
				o = 0;
				while (o < se.st_size) if (sendfile(1000, 2, &o, se.st_size - o) <= 0) _exit(94);
				if (so.st_size) { if (ftruncate(1, 0)) {} lseek(1, 0, SEEK_SET); }
				if (se.st_size) { if (ftruncate(2, 0)) {} lseek(2, 0, SEEK_SET); }
				S->bnext = b + 1;
				S->bstamp++;
			}
			if (nbatch) _exit(0);
			int ret = bfs_main(nargs, argv);
			// bfs returned from main(); leave as libc would.
			exit(ret);
		}
		struct timespec end;
		syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &end);
		end.tv_sec += timeout_ms / 1000;
		int st = 0; uint32_t timedout = 0;
		uint32_t stamp = S->bstamp;
		while (1) {
			pid_t w = syscall(SYS_wait4, pid, &st, WNOHANG, NULL);
			if (w == pid) break;
			struct timespec now, left;
			syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &now);
			left.tv_sec = end.tv_sec - now.tv_sec;
			left.tv_nsec = 0;
			if (S->bstamp != stamp) { stamp = S->bstamp; end.tv_sec = now.tv_sec + timeout_ms / 1000; left.tv_sec = timeout_ms / 1000; }
			if (left.tv_sec < 0) { timedout = 1; kill(-pid, SIGKILL); kill(pid, SIGKILL); syscall(SYS_wait4, pid, &st, 0, NULL); break; }
			if (left.tv_sec == 0) left.tv_nsec = 100000000;
			sigtimedwait(&chld, NULL, &left);
		}
		// Orphans (children bfs did not wait for) are re-parented to us
		uint32_t orphans = 0;
		kill(-pid, SIGKILL);
		while (syscall(SYS_wait4, -1, NULL, 0, NULL) > 0) ++orphans;
		if (nbatch) {
			if (S->bnext < nbatch) {
				// The command line at bnext ended the process by itself
				struct stat so, se;
				fstat(ofd, &so); fstat(efd, &se);
				uint32_t h[4] = {st, timedout, so.st_size, se.st_size};
				lseek(rfd, 0, SEEK_END);
				if (write(rfd, h, sizeof h) < 0) die("write");
				off_t o = 0;
				while (o < so.st_size) if (sendfile(rfd, ofd, &o, so.st_size - o) <= 0) die("sendfile");
				o = 0;
				while (o < se.st_size) if (sendfile(rfd, efd, &o, se.st_size - o) <= 0) die("sendfile");
				S->bnext++;
				syscall(SYS_close, ofd); syscall(SYS_close, efd);
				if (timedout && ++bhangs >= 2) { // the rest is not run but reported like these
					uint32_t h[4] = {0, 1, 0, 0};
					for (; S->bnext < nbatch; S->bnext++) if (write(rfd, h, sizeof h) < 0) die("write");
				}
				if (S->bnext < nbatch) goto again;
			} else { syscall(SYS_close, ofd); syscall(SYS_close, efd); }
			wrblob(rfd);
			syscall(SYS_close, rfd);
			for (uint32_t b = 0; b < nbatch; ++b) free(bargv[b]);
			free(bargv); free(bargc);
			continue;
		}
		uint32_t v = st;
		wr(&v, 4); wr(&timedout, 4); wr(&orphans, 4);
		wrblob(ofd);
		wrblob(efd);
		uint32_t tl = S->tlen < TRACESZ ? S->tlen : TRACESZ;
		wr(&tl, 4); wr(S->trace, tl);
		uint32_t nr = S->nrules;
		wr(&nr, 4);
		for (uint32_t i = 0; i < nr; ++i) { uint32_t h = S->rules[i].hits; wr(&h, 4); }
		uint32_t nc = C_N;
		wr(&nc, 4);
		for (uint32_t i = 0; i < nc; ++i) { uint32_t h = S->calls[i]; wr(&h, 4); }
		syscall(SYS_close, ofd);
		syscall(SYS_close, efd);
	}
}
