/* C04: a whole bftw() walk under the controlled scheduler.
 * args: QDEPTH NTHREADS URING STRATEGY FLAGS NOPENFD ACTION DIR ROOT...
 *   FLAGS: letters s(tat) p(ost-order) o(rder: sort) b(uffer) f(ollow all) c(ycles)
 *   ACTION: - or qN (stop at the Nth call) or pNAME (prune NAME) ; files called "e*" cannot be opened */
#define _GNU_SOURCE
#include "mcs.h"
#include "bftw.h"
#include "ioq.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

extern int fu_enabled, fu_live; extern unsigned fu_flags, fu_ops, fu_entries;
static int qdepth, nthreads, nopenfd, basefd;
static enum bftw_strategy strategy; static enum bftw_flags flags;
static const char *action; static const char *roots[8]; static size_t nroots;
enum { NV = 128 };
struct visit { char path[64]; int visit, type, err; };
static struct visit ref[NV], got[NV]; static int nref, ngot; static bool recording;

struct ioq *__real_ioq_create(size_t depth, size_t n);
struct ioq *__wrap_ioq_create(size_t depth, size_t n) { return __real_ioq_create(qdepth, n); }

int mc_openat_hook(int d, const char *p, int fl) {
	const char *b = strrchr(p, '/'); b = b ? b + 1 : p;
	if (b[0] == 'e') { errno = EACCES; return -1; }
	if (!recording) {
		/* as if RLIMIT_NOFILE were just what bftw() was promised */
		int n = fu_live;
		for (int i = basefd; i < basefd + nopenfd + 2; ++i) n += fcntl(i, F_GETFD) >= 0;
		if (n >= nopenfd) { mc_note("EMFILE for %s", p); errno = EMFILE; return -1; }
	}
	return 0;
}

static enum bftw_action cb(const struct BFTW *f, void *ptr) {
	struct visit *v = recording ? &ref[nref++] : &got[ngot++];
	if (nref >= NV || ngot >= NV) mc_violation("too many visits");
	snprintf(v->path, sizeof v->path, "%s", f->path);
	v->visit = f->visit; v->type = f->type; v->err = f->type == BFS_ERROR ? f->error : 0;
	mc_note("visit %s%s type %d err %d", f->path, f->visit == BFTW_POST ? " (post)" : "", f->type, v->err);
	if (f->type != BFS_ERROR) {
		/* the descriptor handed out must really lead to this file */
		struct stat a, b;
		bool follow = !(f->stat_flags & BFS_STAT_NOFOLLOW);
		int r1 = fstatat(f->at_fd, f->at_path, &a, AT_SYMLINK_NOFOLLOW), r2 = lstat(f->path, &b);
		if (r1 || r2 || a.st_ino != b.st_ino || a.st_dev != b.st_dev) mc_violation("%s: at_fd/at_path do not denote this file", f->path);
		if (flags & BFTW_STAT) {
			const struct bfs_stat *sb = bftw_stat(f, f->stat_flags);
			if (follow && stat(f->path, &b)) lstat(f->path, &b);
			if (!sb || sb->ino != b.st_ino || sb->mode != b.st_mode) mc_violation("%s: wrong attributes", f->path);
		}
	}
	if (action[0] == 'q') { if ((recording ? nref : ngot) == atoi(action + 1)) return BFTW_STOP; }
	if (action[0] == 'p' && strcmp(f->path + f->nameoff, action + 1) == 0) return BFTW_PRUNE;
	return BFTW_CONTINUE;
}

static int walk(int threads) {
	struct bftw_args a = { .paths = roots, .npaths = nroots, .callback = cb, .nopenfd = nopenfd, .nthreads = threads, .flags = flags, .strategy = strategy };
	return bftw(&a);
}

static int cmp(const void *a, const void *b) {
	const struct visit *x = a, *y = b;
	int c = strcmp(x->path, y->path);
	return c ? c : x->visit != y->visit ? x->visit - y->visit : x->err - y->err;
}

void mc_args(int argc, char **argv) {
	qdepth = atoi(argv[0]); nthreads = atoi(argv[1]);
	unsigned f, o, e;
	if (sscanf(argv[2], "%x:%u:%u", &f, &o, &e) == 3) { fu_enabled = 1; fu_flags = f; fu_ops = o; fu_entries = e; }
	strategy = atoi(argv[3]);
	flags = BFTW_RECOVER;
	for (const char *p = argv[4]; *p; ++p) flags |= *p == 's' ? BFTW_STAT : *p == 'p' ? BFTW_POST_ORDER : *p == 'o' ? BFTW_SORT : *p == 'b' ? BFTW_BUFFER : *p == 'f' ? BFTW_FOLLOW_ALL : *p == 'c' ? BFTW_DETECT_CYCLES : 0;
	nopenfd = atoi(argv[5]); action = argv[6];
	if (chdir(argv[7])) { perror(argv[7]); exit(3); }
	for (int i = 8; i < argc; ++i) roots[nroots++] = argv[i];
	basefd = dup(0); close(basefd);
	recording = true;
	const char *act = action; if (*act == 'q') action = "-";
	if (walk(0)) { perror("reference walk"); exit(3); }
	action = act;
	recording = false;
	if (!(flags & BFTW_SORT)) qsort(ref, nref, sizeof *ref, cmp);
}
void mc_reset(void) { ngot = 0; fu_live = 0; memset(got, 0, sizeof got); }

static int ret_, err_;
void mc_body(void) { ret_ = walk(nthreads); err_ = errno; }

void mc_finish(void) {
	if (mc_live()) mc_violation("%zu heap blocks leaked", mc_live());
	for (int i = basefd; i < basefd + 16; ++i) if (fcntl(i, F_GETFD) >= 0) mc_violation("file descriptor %d leaked", i);
	if (fu_live) mc_violation("io_uring leaked");
	if (ret_) mc_violation("bftw() failed: %s", strerror(err_));
	uint64_t h = 0;
	for (int i = 0; i < ngot; ++i) for (const char *p = got[i].path; *p; ++p) h = h * 31 + *p + got[i].visit * 7;
	mc_obs(h);
	/* parents before children (after them in post-order visits) */
	for (int i = 0; i < ngot; ++i) for (int j = i + 1; j < ngot; ++j) {
		size_t n = strlen(got[j].path);
		bool jparent = !strncmp(got[i].path, got[j].path, n) && got[i].path[n] == '/' && nroots == 1;
		if (jparent && got[j].visit == BFTW_PRE && !got[j].err && !(flags & BFTW_POST_ORDER)) mc_violation("%s visited before its parent", got[i].path);
	}
	if (action[0] == 'q') {
		int want = atoi(action + 1) < nref ? atoi(action + 1) : nref;
		if (ngot != want) mc_violation("%d visits, but the walk was stopped at %d", ngot, want);
		if (flags & BFTW_SORT) { for (int i = 0; i < ngot; ++i) if (cmp(&got[i], &ref[i])) mc_violation("visit %d: %s instead of %s", i, got[i].path, ref[i].path); return; }
		qsort(got, ngot, sizeof *got, cmp);
		int j = 0;
		for (int i = 0; i < ngot; ++i) {
			while (j < nref && cmp(&ref[j], &got[i]) < 0) ++j;
			if (j >= nref || cmp(&ref[j], &got[i])) mc_violation("%s visited twice or wrongly", got[i].path);
			++j;
		}
		return;
	}
	if (!(flags & BFTW_SORT)) qsort(got, ngot, sizeof *got, cmp);
	for (int i = 0; i < ngot && i < nref; ++i)
		if (cmp(&got[i], &ref[i]) || got[i].type != ref[i].type)
			mc_violation("visit %d: %s/%d type %d err %d instead of %s/%d type %d err %d", i, got[i].path, got[i].visit, got[i].type, got[i].err, ref[i].path, ref[i].visit, ref[i].type, ref[i].err);
	if (ngot != nref) mc_violation("%d visits instead of %d", ngot, nref);
}
