/* A fake io_uring for the controlled scheduler: submissions may be short or fail,
 * completions may come in any order and as late as the caller allows. */
#define _GNU_SOURCE
#include "mcs.h"
#include <errno.h>
#include <fcntl.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include <liburing.h>

/* configuration */
int fu_enabled;                  /* 0: io_uring unavailable */
unsigned fu_flags = ~0u;         /* setup flags the kernel knows */
unsigned fu_ops = 7;             /* 1 openat, 2 close, 4 statx */
unsigned fu_entries = 2;
int fu_live;

void *__wrap_malloc(size_t); void __wrap_free(void *);
#define MAXFLY 32
struct fu {
	struct io_uring *ring;
	bool enabled; int issuer; unsigned flags;
	struct io_uring_sqe fly[MAXFLY]; int nfly;
	unsigned khead, ktail, chead, ctail, mask, cmask, kflags, dropped, overflow;
	struct io_uring_sqe *sqes; struct io_uring_cqe *cqes; unsigned *arr;
	unsigned entries;
};

int io_uring_queue_init_params(unsigned n, struct io_uring *r, struct io_uring_params *p) {
	if (!fu_enabled) return -ENOSYS;
	if (p->flags & ~fu_flags) return -EINVAL;
	struct fu *u = __wrap_malloc(sizeof *u);
	memset(u, 0, sizeof *u);
	memset(r, 0, sizeof *r);
	n = n < fu_entries ? n : fu_entries;
	u->ring = r; u->entries = n; u->mask = n - 1; u->cmask = 2 * n - 1; u->flags = p->flags; u->issuer = -1;
	u->sqes = __wrap_malloc(n * sizeof *u->sqes); memset(u->sqes, 0, n * sizeof *u->sqes);
	u->cqes = __wrap_malloc(2 * n * sizeof *u->cqes); memset(u->cqes, 0, 2 * n * sizeof *u->cqes);
	u->arr = __wrap_malloc(n * sizeof *u->arr);
	for (unsigned i = 0; i < n; ++i) u->arr[i] = i;
	r->sq.khead = &u->khead; r->sq.ktail = &u->ktail; r->sq.kring_mask = &u->mask; r->sq.kring_entries = &u->entries;
	r->sq.kflags = &u->kflags; r->sq.kdropped = &u->dropped; r->sq.array = u->arr; r->sq.sqes = u->sqes;
	r->sq.ring_mask = n - 1; r->sq.ring_entries = n; r->sq.ring_ptr = u;
	r->cq.khead = &u->chead; r->cq.ktail = &u->ctail; r->cq.kring_mask = &u->cmask; r->cq.cqes = u->cqes;
	r->cq.kflags = &u->kflags; r->cq.koverflow = &u->overflow;
	r->cq.ring_mask = 2 * n - 1; r->cq.ring_entries = 2 * n;
	r->flags = p->flags; r->ring_fd = 1000; r->enter_ring_fd = 1000; r->features = IORING_FEAT_NODROP | IORING_FEAT_SINGLE_MMAP;
	u->enabled = !(p->flags & IORING_SETUP_R_DISABLED);
	++fu_live;
	return 0;
}
static struct fu *U(struct io_uring *r) { return r->sq.ring_ptr; }
void io_uring_queue_exit(struct io_uring *r) {
	struct fu *u = U(r);
	if (u->nfly) mc_violation("io_uring destroyed with %d requests in flight", u->nfly);
	__wrap_free(u->sqes); __wrap_free(u->cqes); __wrap_free(u->arr); __wrap_free(u);
	--fu_live;
}
struct io_uring_probe *io_uring_get_probe_ring(struct io_uring *r) {
	size_t len = sizeof(struct io_uring_probe) + 256 * sizeof(struct io_uring_probe_op);
	struct io_uring_probe *p = __wrap_malloc(len);
	memset(p, 0, len);
	p->last_op = 255; p->ops_len = 255;
	if (fu_ops & 1) p->ops[IORING_OP_OPENAT].flags = IO_URING_OP_SUPPORTED;
	if (fu_ops & 2) p->ops[IORING_OP_CLOSE].flags = IO_URING_OP_SUPPORTED;
	if (fu_ops & 4) p->ops[IORING_OP_STATX].flags = IO_URING_OP_SUPPORTED;
	return p;
}
void io_uring_free_probe(struct io_uring_probe *p) { __wrap_free(p); }
int io_uring_enable_rings(struct io_uring *r) {
	struct fu *u = U(r);
	if (u->enabled) return -EBADFD;
	u->enabled = true; u->issuer = mc_cur;
	return 0;
}
int io_uring_register_iowq_max_workers(struct io_uring *r, unsigned *v) { return 0; }

static void complete(struct fu *u, int i) {
	struct io_uring_sqe s = u->fly[i];
	memmove(&u->fly[i], &u->fly[i + 1], (--u->nfly - i) * sizeof *u->fly);
	int res;
	switch (s.opcode) {
	case IORING_OP_NOP: res = 0; break;
	case IORING_OP_CLOSE: res = close(s.fd) ? -errno : 0; break;
	case IORING_OP_OPENAT: res = openat(s.fd, (const char *)(uintptr_t)s.addr, s.open_flags, s.len); if (res < 0) res = -errno; break;
	case IORING_OP_STATX:
		res = statx(s.fd, (const char *)(uintptr_t)s.addr, s.statx_flags, s.len, (struct statx *)(uintptr_t)s.off);
		if (res < 0) res = -errno; else mc_range((void *)(uintptr_t)s.off, sizeof(struct statx), 1);
		break;
	default: mc_violation("unexpected io_uring operation %d", s.opcode);
	}
	struct io_uring_cqe *c = &u->cqes[u->ctail & u->cmask];
	c->user_data = s.user_data; c->res = res; c->flags = 0;
	++u->ctail;
	mc_note("io_uring op %d completes: %d", s.opcode, res);
}
static unsigned ready(struct fu *u) { return u->ctail - u->chead; }
static void run_completions(struct fu *u, unsigned want) {
	while (u->nfly && ready(u) < u->cmask + 1) {
		bool may_stop = ready(u) >= want;
		int c = mc_choose(u->nfly + may_stop, 1, "completion");
		if (c == u->nfly) break;
		complete(u, c);
	}
	if (ready(u) < want) mc_violation("waiting for %u completions with only %u possible", want, ready(u));
}
int io_uring_submit_and_wait(struct io_uring *r, unsigned wait) {
	struct fu *u = U(r);
	if (!u->enabled) return -EBADFD;
	if (u->flags & IORING_SETUP_SINGLE_ISSUER) {
		if (u->issuer < 0) u->issuer = mc_cur;
		if (u->issuer != mc_cur) return -EEXIST;
	}
	/* flush, like liburing */
	unsigned n = r->sq.sqe_tail - u->khead;
	r->sq.sqe_head = r->sq.sqe_tail; u->ktail = r->sq.sqe_tail;
	int c = n ? mc_choose(n > 1 ? 3 : 2, 1, "submission") : 0;
	if (c == 1) return -EAGAIN;
	if (c == 2) n = n - 1;
	for (unsigned i = 0; i < n; ++i) {
		if (u->nfly >= MAXFLY) mc_violation("harness: too many requests in flight");
		u->fly[u->nfly++] = u->sqes[u->khead & u->mask];
		++u->khead;
	}
	/* a short submission returns without waiting */
	run_completions(u, c == 2 ? 0 : wait);
	return n;
}
int io_uring_submit(struct io_uring *r) { return io_uring_submit_and_wait(r, 0); }
int io_uring_wait_cqes(struct io_uring *r, struct io_uring_cqe **pc, unsigned nr, struct __kernel_timespec *ts, sigset_t *m) {
	struct fu *u = U(r);
	if (ready(u) < nr && mc_choose(2, 1, "wait_cqes EINTR")) return -EINTR;
	run_completions(u, nr);
	*pc = &u->cqes[u->chead & u->cmask];
	return 0;
}
