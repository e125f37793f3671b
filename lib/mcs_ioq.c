/* C03: scripts of I/O queue operations under the controlled scheduler.
 * args: DEPTH NTHREADS URING(0 or flags:ops:entries) SCRIPT DIR */
#define _GNU_SOURCE
#include "mcs.h"
#include "ioq.h"
#include "dir.h"
#include "stat.h"
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

extern int fu_enabled, fu_live; extern unsigned fu_flags, fu_ops, fu_entries;
static int depth, nthreads; static const char *script, *dir; static int dfd, basefd;
static struct stat st_f;
enum { NREQ = 64 };
struct req { char op; int out; int done; int fd; struct bfs_dir *d; struct bfs_stat buf; int after_cancel; } R[NREQ];
static int nreq, outstanding, cancelled;
static struct ioq *q;
static struct bfs_dir *opened[NREQ]; static int nopened;
static char names[NREQ][8];

void mc_args(int argc, char **argv) {
	depth = atoi(argv[0]); nthreads = atoi(argv[1]);
	unsigned f, o, e;
	if (sscanf(argv[2], "%x:%u:%u", &f, &o, &e) == 3) { fu_enabled = 1; fu_flags = f; fu_ops = o; fu_entries = e; }
	script = argv[3]; dir = argv[4];
	if (*script == 'F') { mc_fail_create = 1; ++script; }
	dfd = open(dir, O_RDONLY | O_DIRECTORY);
	if (fstatat(dfd, "f", &st_f, 0)) { perror("f"); exit(3); }
	basefd = dup(0); close(basefd);
}
void mc_reset(void) { memset(R, 0, sizeof R); nreq = outstanding = cancelled = nopened = 0; fu_live = 0; }

static int fdcount(void) { int n = 0; for (int i = basefd; i < basefd + 12; ++i) if (fcntl(i, F_GETFD) >= 0) ++n;
	for (int i = 100; i < 100 + nreq; ++i) if (R[i - 100].op == 'c' && fcntl(i, F_GETFD) >= 0) ++n; return n; }

static void got(struct ioq_ent *e) {
	struct req *r = e->ptr;
	if (r < R || r >= R + nreq) mc_violation("a response carries a foreign pointer");
	if (!r->out) mc_violation("a response for request %d (%c) was delivered twice", (int)(r - R), r->op);
	r->out = 0; r->done = 1; --outstanding;
	int res = e->result;
	mc_note("response %c = %d", r->op, res);
	mc_obs((r - R) * 1000 + res);
	int want;
	switch (r->op) {
	case 'S': want = -ENOENT; break;
	case 'O': want = -ENOENT; break;
	default: want = 0;
	}
	bool eintr = cancelled && res == -EINTR && r->op != 'c' && r->op != 'k';
	if (!eintr) {
		bool ok = r->op == 'o' ? res >= 0 : res == want;
		if (!ok) mc_violation("request %d (%c): result %d, expected %d", (int)(r - R), r->op, res, want);
		if (r->op == 's' && (r->buf.ino != st_f.st_ino || r->buf.size != st_f.st_size || r->buf.mode != st_f.st_mode || r->buf.dev != st_f.st_dev)) mc_violation("stat response with wrong contents");
		if (r->op == 'o') opened[nopened++] = r->d;
		if (r->op == 'c' && fcntl(r->fd, F_GETFD) >= 0) mc_violation("closed descriptor is still open");
	}
	if (r->op == 'O' || (r->op == 'o' && eintr)) free(r->d);
	if (r->op == 'k') {
#if BFS_USE_UNWRAPDIR
		/* through io_uring only the descriptor is closed */
#endif
		free(r->d);
	}
	enum ioq_op want_op = strchr("nN", r->op) ? IOQ_NOP : r->op == 'c' ? IOQ_CLOSE : strchr("oO", r->op) ? IOQ_OPENDIR : r->op == 'k' ? IOQ_CLOSEDIR : IOQ_STAT;
	if (e->op != want_op) mc_violation("response of the wrong kind");
	ioq_free(q, e);
	if (ioq_capacity(q) != (size_t)(depth - outstanding)) mc_violation("capacity %zu with %d of %d outstanding", ioq_capacity(q), outstanding, depth);
}

static void request(char op) {
	struct req *r = &R[nreq];
	r->op = op;
	int ret;
	bool skip = false;
	if (op == 'k') { if (!nopened) return; r->d = opened[nopened - 1]; }
	if (op == 'c') r->fd = fcntl(dfd, F_DUPFD_CLOEXEC, 100 + nreq);
	if (op == 'o' || op == 'O') { r->d = bfs_allocdir(); }
	switch (op) {
	case 'n': ret = ioq_nop(q, IOQ_NOP_LIGHT, r); break;
	case 'N': ret = ioq_nop(q, IOQ_NOP_HEAVY, r); break;
	case 's': ret = ioq_stat(q, dfd, "f", BFS_STAT_NOFOLLOW, &r->buf, r); break;
	case 'S': ret = ioq_stat(q, dfd, "missing", BFS_STAT_NOFOLLOW, &r->buf, r); break;
	case 'c': ret = ioq_close(q, r->fd, r); break;
	case 'o': ret = ioq_opendir(q, r->d, dfd, "d", 0, r); break;
	case 'O': ret = ioq_opendir(q, r->d, dfd, "missing", 0, r); break;
	case 'k': ret = ioq_closedir(q, r->d, r); break;
	default: abort();
	}
	(void)skip;
	mc_note("request %c: %d %s", op, ret, ret ? strerror(errno) : "");
	if (ret == 0) {
		if (cancelled) mc_violation("request accepted after cancellation");
		if (outstanding >= depth) mc_violation("request accepted by a full queue");
		r->out = 1; ++outstanding; ++nreq;
		if (op == 'k') --nopened;
	} else {
		int want = cancelled ? EINTR : EAGAIN;
		if (errno != want) mc_violation("request refused with errno %d, expected %d", errno, want);
		if (!cancelled && outstanding < depth) mc_violation("request refused with %d of %d outstanding", outstanding, depth);
		if (op == 'c') close(r->fd);
		if (op == 'o' || op == 'O') free(r->d);
	}
}

void mc_body(void) {
	q = ioq_create(depth, nthreads);
	if (!q) {
		if (!mc_create_failed) mc_violation("ioq_create failed");
		if (errno != EAGAIN) mc_violation("ioq_create failed with errno %d instead of EAGAIN", errno);
		return;
	}
	if (mc_create_failed) mc_violation("ioq_create succeeded although a thread could not be created");
	bool drain = true;
	for (const char *p = script; *p; ++p) {
		struct ioq_ent *e;
		switch (*p) {
		case 'u': ioq_submit(q); break;
		case 'p':
			e = ioq_pop(q, true);
			if (!e && outstanding) mc_violation("blocking pop returned nothing with %d requests outstanding", outstanding);
			if (e) got(e);
			break;
		case 'q': e = ioq_pop(q, false); if (e) got(e); break;
		case 'Q': while (outstanding && !(e = ioq_pop(q, false))) mc_yield(); if (outstanding) got(e); break;
		case 'x': cancelled = 1; ioq_cancel(q); break;
		case '!': drain = false; break;
		default: request(*p);
		}
	}
	if (drain) {
		ioq_submit(q);
		while (outstanding) {
			struct ioq_ent *e = ioq_pop(q, true);
			if (!e) mc_violation("blocking pop returned nothing with %d requests outstanding", outstanding);
			got(e);
		}
		if (ioq_pop(q, false)) mc_violation("a response without a request");
	}
	ioq_destroy(q);
	for (int i = 0; i < nopened; ++i) { if (bfs_closedir(opened[i])) mc_violation("closedir failed"); free(opened[i]); }
}
void mc_finish(void) {
	if (mc_live()) mc_violation("%zu heap blocks leaked", mc_live());
	if (fdcount()) mc_violation("file descriptor leaked");
	if (fu_live) mc_violation("io_uring leaked");
}
