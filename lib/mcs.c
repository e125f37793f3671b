/*
 * mcs: a stateless model checker for the concurrent parts of bfs.
 *
 * The real sources are compiled with -fsanitize=thread and linked with this
 * runtime instead of libtsan.  Threads become fibers of one OS thread; every
 * atomic operation and every pthread/semaphore operation is a scheduling
 * point, and all schedules with at most K deviations (preemptions, spurious
 * failures, kernel reorderings, injected signals) are executed.  Plain memory
 * accesses feed a vector-clock race detector which gives the atomics exactly
 * the ordering their memory_order arguments promise.  Heap blocks are never
 * reused within an execution, so stray accesses are seen as well.
 */
#define _GNU_SOURCE
#include "mcs.h"
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
#include <ctype.h>
#include <execinfo.h>

#define MAXF 4
#define STACK (256 * 1024)
#define HEAP (8u << 20)
#define MAXCH 200000

/* ------------------------------------------------------------ fibers */

enum fstate { F_FREE, F_READY, F_MUTEX, F_COND, F_SEM, F_JOIN, F_DONE };
typedef struct { uint32_t c[MAXF]; } VC;
static struct fiber {
	void *sp;
	enum fstate st;
	void *waiting;          /* mutex/cond/sem address, or fiber index for join */
	void *cmutex;           /* mutex to reacquire after a cond wait */
	int err;
	void *(*fn)(void *);
	void *arg, *ret;
	VC vc, relf, acqf;      /* clock, release fence, pending acquire fence */
	const void *laddr; uint64_t lval; int lrep;   /* repeated loads */
	unsigned solo;          /* consecutive points without another fiber running */
	int insig;
	int joined;
	int asleep_sem_intr;
} F[MAXF];
static char *stacks;
static int nf;
int mc_fail_create, mc_create_failed, mc_cur, mc_in_run, mc_replaying, mc_spurious = 1, mc_sig_budget;
void (*mc_sig_deliver)(int fiber);
int (*mc_can_deliver)(int fiber);
static void *sched_sp;

void mcs_switch(void **save, void *to);
__asm__(
".text\n.globl mcs_switch\nmcs_switch:\n"
"push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
"mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
"pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n");

/* ------------------------------------------------------------ exploration state */

struct choice { uint16_t n, c; uint8_t cost; };
static struct choice *tr;          /* choices of this execution */
static int ntr, nprefix;
static int K = 2, part = 0, nparts = 1;
static int spent;                  /* deviations so far */
static unsigned long long execs, steps, points, maxpts;
static unsigned long long obs;
static unsigned nobs_distinct;
static uint64_t *obs_tab; static size_t obs_cap = 1 << 16;
static unsigned long nsteps_exec;
static unsigned long horizon = 400000;
static char *trace_buf;
static char argline[4096];

static void out_violation(const char *msg) {
	printf("MCS-VIOLATION %s\n", msg);
	printf("args: %s\nschedule:", argline);
	int z = ntr; while (z > 0 && tr[z - 1].c == 0) --z;
	for (int i = 0; i < z; ++i) if (tr[i].c) printf(" %d:%d", i, tr[i].c);
	printf("\n");
	fflush(stdout);
}

void mc_violation(const char *fmt, ...) {
	char b[2000];
	va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	for (char *p = b; *p; ++p) if (*p == '\n') *p = ' ';
	out_violation(b);
	_exit(1);
}

void mc_note(const char *fmt, ...) {
	if (!mc_replaying) return;
	va_list ap; va_start(ap, fmt);
	printf("  [%d] ", mc_cur); vprintf(fmt, ap); printf("\n");
	va_end(ap);
}

void mc_obs(uint64_t h) { obs = (obs ^ h) * 0x9E3779B97F4A7C15ull; obs ^= obs >> 29; }

static void setchain_choice(int c, int n);
int mc_choose(int n, int cost, const char *what) {
	if (n <= 1) return 0;
	++points;
	if (ntr >= MAXCH) mc_violation("execution does not terminate (too many choice points)");
	int c;
	if (ntr < nprefix) {
		if (tr[ntr].n != n || tr[ntr].cost != cost) {
			printf("MCS-ERROR nondeterminism at choice %d: %d/%d alternatives, cost %d/%d (%s); args %s\n", ntr, tr[ntr].n, n, tr[ntr].cost, cost, what, argline);
			fflush(stdout); _exit(3);
		}
		c = tr[ntr].c;
	} else {
		c = 0;
		tr[ntr].n = n; tr[ntr].cost = cost; tr[ntr].c = 0;
	}
	++ntr;
	setchain_choice(c, n);
	if (c) { spent += cost; if (mc_replaying) printf("  -- choice %d: %s = %d of %d\n", ntr - 1, what, c, n); }
	return c;
}

static bool next_execution(void) {
	/* cumulative cost before each position */
	int cum = 0;
	for (int i = 0; i < ntr; ++i) if (tr[i].c) cum += tr[i].cost;
	int firstdev = -1;
	for (int i = 0; i < ntr; ++i) if (tr[i].c) { firstdev = i; break; }
	for (int i = ntr - 1; i >= 0; --i) {
		if (tr[i].c) cum -= tr[i].cost;      /* cost strictly before i */
		bool isfirst = firstdev < 0 || firstdev >= i;
		if (isfirst && nparts > 1 && i % nparts != part) continue;
		if (tr[i].c + 1 < tr[i].n && cum + tr[i].cost <= K) {
			++tr[i].c;
			nprefix = i + 1;
			return true;
		}
	}
	return false;
}

/* ------------------------------------------------------------ clocks and shadow */

static inline void vjoin(VC *a, const VC *b) { for (int i = 0; i < MAXF; ++i) if (b->c[i] > a->c[i]) a->c[i] = b->c[i]; }

/* synchronisation objects, by address */
struct sync { void *addr; uint32_t gen; VC vc; int owner, kind; int val; uint64_t w, r; };
#define NSYNC 65536
static struct sync syncs[NSYNC];
static uint32_t gen = 1;
static struct sync *sync_of(const void *a) {
	size_t h = ((uintptr_t)a >> 2) * 0x9E3779B97F4A7C15ull >> 48;
	for (;; h = (h + 1) % NSYNC) {
		struct sync *s = &syncs[h];
		if (s->gen != gen) { memset(s, 0, sizeof *s); s->gen = gen; s->addr = (void *)a; s->owner = -1; return s; }
		if (s->addr == a) return s;
	}
}

/*
 * Happens-before hash.  An execution prefix is identified, up to commuting
 * independent operations, by what every thread has done and seen: two prefixes
 * with equal hashes lead to the same state, so the second is not continued
 * (unless it has more deviations left to spend).
 */
static uint64_t chain[MAXF], hsum;
static inline uint64_t mix(uint64_t x) { x ^= x >> 32; x *= 0xd6e8feb86659fd93ull; x ^= x >> 32; x *= 0xd6e8feb86659fd93ull; x ^= x >> 32; return x; }
static inline uint64_t vmix(struct sync *s) { return (s->w | s->r) ? mix((uint64_t)(uintptr_t)s->addr * 0x9E3779B97F4A7C15ull ^ mix(s->w + 77) ^ mix(s->r + 1234567)) : 0; }
static inline void setchain(int t, uint64_t v) { hsum -= mix(chain[t] + t); chain[t] = v; hsum += mix(v + t); }
static void ev(const void *a, int write) {
	struct sync *s = sync_of(a);
	uint64_t e = mix(chain[mc_cur] ^ mix((uintptr_t)a * 31 + write) ^ mix(s->w * 3 + (write ? mix(s->r) : 0)));
	hsum -= vmix(s);
	if (write) { s->w = e; s->r = 0; } else s->r += e;
	hsum += vmix(s);
	setchain(mc_cur, e);
}
static struct { uint64_t key; int8_t rem; } *hc; static size_t hc_cap = 1 << 22, hc_n;
static unsigned long long pruned;
static int use_cache = 1;
static int fdtab;                /* stands for the descriptor table */

enum { K_W, K_R, K_AW, K_AR };
struct cell { uint32_t gen; uint8_t mask[MAXF][4]; uint32_t clk[MAXF][4]; };
static char *heap; static size_t heap_top, heap_hi;
static uint8_t *hvalid;          /* per granule: 0 never allocated, 1..8 valid bytes, 0xFD freed, 0xFC inside freed */
static struct cell *sh_heap, *sh_stack, *sh_data;
extern char __data_start, _end;
static size_t data_len;

static const char *kname[] = { "write", "read", "atomic write", "atomic read" };

static void where(char *b, size_t n) {
	void *bt[24]; int k = backtrace(bt, 24);
	size_t o = 0; b[0] = 0;
	for (int i = 2; i < k && i < 12 && o + 40 < n; ++i) o += snprintf(b + o, n - o, " %p", bt[i]);
}

static void race(const void *p, int kind, int u, int ukind) {
	char w[600]; where(w, sizeof w);
	mc_violation("data race: %s of %p by thread %d is unordered with a %s by thread %d; at%s", kname[kind], p, mc_cur, kname[ukind], u, w);
}

static inline struct cell *cell_of(uintptr_t g) {
	uintptr_t a = g << 3;
	if (a - (uintptr_t)heap < HEAP) {
		return &sh_heap[(a - (uintptr_t)heap) >> 3];
	}
	if (a - (uintptr_t)stacks < (uintptr_t)MAXF * STACK) return &sh_stack[(a - (uintptr_t)stacks) >> 3];
	if (a - (uintptr_t)&__data_start < data_len) return &sh_data[(a - (uintptr_t)&__data_start) >> 3];
	return NULL;
}

static void bad_heap(const void *p, size_t n, int kind, int v) {
	char w[600]; where(w, sizeof w);
	mc_violation("%s of %zu bytes at %p: %s memory; at%s", kname[kind], n, p, v >= 0xFC ? "freed" : "unallocated", w);
}

static void access_gran(uintptr_t g, unsigned mask, int kind, const void *p, size_t n) {
	struct cell *c = cell_of(g);
	if (!c) return;
	uintptr_t a = g << 3;
	if (a - (uintptr_t)heap < HEAP) {
		int v = hvalid[(a - (uintptr_t)heap) >> 3];
		if (v == 0 || v >= 0xFC || (mask >> v)) bad_heap(p, n, kind, v);
	}
	int t = mc_cur;
	if (c->gen != gen) { memset(c, 0, sizeof *c); c->gen = gen; }
	static const uint8_t confl[4] = { 15, (1 << K_W) | (1 << K_AW), (1 << K_W) | (1 << K_R), (1 << K_W) };
	for (int u = 0; u < nf; ++u) {
		if (u == t) continue;
		for (int k = 0; k < 4; ++k)
			if ((confl[kind] >> k & 1) && (c->mask[u][k] & mask) && c->clk[u][k] > F[t].vc.c[u]) race(p, kind, u, k);
	}
	if (c->clk[t][kind] != F[t].vc.c[t]) { c->clk[t][kind] = F[t].vc.c[t]; c->mask[t][kind] = mask; }
	else c->mask[t][kind] |= mask;
}

static inline void acc(const void *p, size_t n, int kind) {
	if (!mc_in_run) return;
	uintptr_t a = (uintptr_t)p;
	if (a - (uintptr_t)stacks < (uintptr_t)MAXF * STACK && nf == 1) return;
	while (n) {
		size_t o = a & 7, k = 8 - o; if (k > n) k = n;
		access_gran(a >> 3, ((1u << k) - 1) << o, kind, p, n);
		a += k; n -= k;
	}
}
void mc_range(const void *p, size_t n, int write) { acc(p, n, write ? K_W : K_R); }

static bool sched_choice;
static void setchain_choice(int c, int n) { if (!sched_choice) setchain(mc_cur, mix(chain[mc_cur] + 0x51ull * (c + 1))); }

/* ------------------------------------------------------------ heap */

void *__real_malloc(size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static size_t nlive;
struct hdr { size_t size; size_t live; };

static void *halloc(size_t align, size_t n) {
	if (!mc_in_run) { void *p = NULL; return posix_memalign(&p, align < 16 ? 16 : align, n ? n : 1) ? NULL : p; }
	if (align < 16) align = 16;
	size_t o = heap_top + sizeof(struct hdr);
	o = (o + align - 1) & ~(align - 1);
	size_t r = (n + 7) & ~(size_t)7;
	if (o + r + 16 > HEAP) mc_violation("harness heap exhausted");
	struct hdr *h = (struct hdr *)(heap + o) - 1;
	h->size = n; h->live = 1;
	uint8_t *v = hvalid + (o >> 3);
	memset(v, 8, n >> 3);
	if (n & 7) v[n >> 3] = n & 7;
	heap_top = o + r + 16;
	if (heap_top > heap_hi) heap_hi = heap_top;
	++nlive;
	memset(heap + o, 0xA5, n);
	return heap + o;
}
static bool mine(const void *p) { return (uintptr_t)p - (uintptr_t)heap < HEAP; }
void *__wrap_malloc(size_t n) { return mc_in_run ? halloc(16, n) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { void *p = __wrap_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
int __wrap_posix_memalign(void **p, size_t al, size_t n) { *p = halloc(al, n); return 0; }
void *__wrap_aligned_alloc(size_t al, size_t n) { return halloc(al, n); }
void __wrap_free(void *p) {
	if (!p) return;
	if (!mine(p)) { __real_free(p); return; }
	struct hdr *h = (struct hdr *)p - 1;
	if (hvalid[((char *)p - heap) >> 3] >= 0xFC || !h->live) { char w[600]; where(w, sizeof w); mc_violation("double free of %p; at%s", p, w); }
	acc(p, h->size, K_W);
	h->live = 0; --nlive;
	memset(hvalid + (((char *)p - heap) >> 3), 0xFD, (h->size + 7) >> 3);
}
void *__wrap_realloc(void *p, size_t n) {
	if (!p) return __wrap_malloc(n);
	if (!mine(p)) return __real_realloc(p, n);
	struct hdr *h = (struct hdr *)p - 1;
	void *q = __wrap_malloc(n);
	memcpy(q, p, h->size < n ? h->size : n);
	__wrap_free(p);
	return q;
}
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = __wrap_malloc(n); memcpy(p, s, n); return p; }
char *__wrap_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = __wrap_malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
size_t mc_live(void) { return nlive; }
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { acc(s, n, K_R); acc(d, n, K_W); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { acc(s, n, K_R); acc(d, n, K_W); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { acc(d, n, K_W); return __real_memset(d, c, n); }

/* ------------------------------------------------------------ scheduling */

static void tick(void) { ++F[mc_cur].vc.c[mc_cur]; }

int mc_frozen;
static bool enabled(int i) {
	struct fiber *f = &F[i];
	if (mc_frozen && i != mc_cur) return false;
	switch (f->st) {
	case F_READY: return true;
	case F_MUTEX: return sync_of(f->waiting)->owner < 0;
	case F_SEM: return sync_of(f->waiting)->val > 0;
	case F_JOIN: return F[(intptr_t)f->waiting].st == F_DONE;
	default: return false;
	}
}

static void run_fiber(int i) {
	if (i == mc_cur) return;
	int o = mc_cur;
	F[o].err = errno;
	F[i].solo = 0;
	mc_cur = i;
	mcs_switch(&F[o].sp, F[i].sp);
	errno = F[o].err;
}

static void deadlock(void) {
	char b[400]; size_t o = 0;
	static const char *n[] = { "free", "ready", "waiting for a mutex", "waiting on a condition", "waiting on a semaphore", "joining", "done" };
	for (int i = 0; i < nf; ++i) o += snprintf(b + o, sizeof b - o, " thread %d %s;", i, n[F[i].st]);
	mc_violation("deadlock:%s", b);
}

/* Deliver an injected signal on top of the current fiber. */
static void deliver(void) {
	struct fiber *f = &F[mc_cur];
	--mc_sig_budget;
	setchain(mc_cur, mix(chain[mc_cur] + 0x516));
	enum fstate st = f->st; void *w = f->waiting, *cm = f->cmutex;
	f->st = F_READY;
	int e = errno;
	++f->insig;
	mc_sig_deliver(mc_cur);
	--f->insig;
	if (errno != e) mc_violation("errno changed by the signal handler (%d to %d)", e, errno);
	f->st = st; f->waiting = w; f->cmutex = cm;
}

static bool cut;
static int freecost;      /* cost of choosing another thread than the next one when the current one blocks */
static void seen_before(bool stay) {
	uint64_t k = mix(hsum ^ mix(mc_cur * 2 + stay + 1 + 64 * mc_frozen) ^ mix(mc_sig_budget + 1000)) | 1;
	int rem = K - spent;
	size_t i = k & (hc_cap - 1);
	while (hc[i].key && hc[i].key != k) i = (i + 1) & (hc_cap - 1);
	if (hc[i].key) {
		if (hc[i].rem >= rem) { cut = true; ++pruned; mcs_switch(&F[mc_cur].sp, sched_sp); __builtin_trap(); }
		hc[i].rem = rem;
	} else if (hc_n < hc_cap * 3 / 4) { hc[i].key = k; hc[i].rem = rem; ++hc_n; }
}

/*
 * Choose who runs next.  `can_stay`: the current fiber may continue.
 * Alternatives are ordered: current fiber, then the others in cyclic order;
 * then signal deliveries to each fiber that can take one.
 */
static void schedule(void) {
	++steps; ++nsteps_exec;
	if (nsteps_exec > horizon) mc_violation("execution does not terminate (%lu steps)", nsteps_exec);
	for (;;) {
		int alt[2 * MAXF], n = 0; bool sig[2 * MAXF];
		bool stay = enabled(mc_cur);
		bool tired = false;
		if (stay && ++F[mc_cur].solo > 3000) { tired = true; }
		if (stay && !tired) { alt[n] = mc_cur; sig[n++] = false; }
		for (int d = 1; d < nf; ++d) {
			int i = (mc_cur + d) % nf;
			if (enabled(i)) { alt[n] = i; sig[n++] = false; }
		}
		if (tired) {
			if (n == 0) { F[mc_cur].solo = 0; alt[n] = mc_cur; sig[n++] = false; }
			else { F[mc_cur].solo = 0; n = 1; }
		}
		int nrun = n;
		if (mc_sig_budget > 0 && mc_sig_deliver) {
			for (int d = 0; d < nf; ++d) {
				int i = (mc_cur + d) % nf;
				if (F[i].st != F_FREE && F[i].st != F_DONE && mc_can_deliver(i)) { alt[n] = i; sig[n++] = true; }
			}
		}
		if (nrun == 0) {
			if (n > 0 && spent < K) {
				/* only a signal can make progress; it need not come */
			}
			deadlock();
		}
		if (n > 1 && ntr >= nprefix && use_cache) seen_before(stay);
		sched_choice = true;
		int c;
		if (stay && !tired) c = mc_choose(n, 1, "switch");
		else if (n > nrun) {
			/* free choice among the runnable, or a (costly) signal */
			int s = mc_choose(n - nrun + 1, 1, "signal");
			c = s ? nrun + s - 1 : mc_choose(nrun, freecost, "run");
		} else c = mc_choose(n, freecost, "run");
		sched_choice = false;
		int t = alt[c];
		if (sig[c]) {
			/* mark the fiber: it takes the signal as soon as it runs */
			F[t].asleep_sem_intr |= 2;
			if (t != mc_cur) {
				enum fstate st = F[t].st;
				(void)st;
			}
		}
		if (mc_replaying && t != mc_cur) printf("  -- thread %d runs\n", t);
		run_fiber(t);
		if (F[mc_cur].asleep_sem_intr & 2) {
			F[mc_cur].asleep_sem_intr &= ~2;
			deliver();
			if (!enabled(mc_cur)) continue;
			/* it already had its point; carry on unless a new choice is due */
			continue;
		}
		return;
	}
}

/* A point before a visible operation. */
static void point(void) {
	F[mc_cur].lrep = 0; F[mc_cur].laddr = NULL;
	schedule();
}

void mc_point(void) { point(); setchain(mc_cur, mix(chain[mc_cur] + 0x9)); }
static bool exited;
void mc_exit(void) { exited = true; mcs_switch(&F[mc_cur].sp, sched_sp); __builtin_trap(); }
void mc_yield(void) { F[mc_cur].solo = 100000; schedule(); }

static void block(enum fstate st, void *on) {
	F[mc_cur].st = st; F[mc_cur].waiting = on;
	schedule();
	F[mc_cur].st = F_READY;
}

static void fiber_main(void) {
	struct fiber *f = &F[mc_cur];
	if (F[mc_cur].asleep_sem_intr & 2) { F[mc_cur].asleep_sem_intr &= ~2; deliver(); }
	f->ret = f->fn(f->arg);
	f->st = F_DONE;
	tick();
	bool all = true;
	for (int i = 0; i < nf; ++i) if (F[i].st != F_DONE) all = false;
	if (all) { mcs_switch(&f->sp, sched_sp); abort(); }
	schedule();
	abort();
}

static int spawn(void *(*fn)(void *), void *arg) {
	if (nf >= MAXF) mc_violation("harness: too many threads");
	int i = nf++;
	struct fiber *f = &F[i];
	memset(f, 0, sizeof *f);
	f->st = F_READY; f->fn = fn; f->arg = arg;
	uintptr_t *sp = (uintptr_t *)(stacks + (size_t)(i + 1) * STACK - 64);
	*--sp = 0;
	*--sp = (uintptr_t)fiber_main;
	sp -= 6;
	memset(sp, 0, 48);
	f->sp = sp;
	f->vc.c[i] = 1;
	chain[i] = 0; hsum += mix(i); setchain(i, i ? mix(chain[mc_cur] + 0xC0) : 1);
	if (i) setchain(mc_cur, mix(chain[mc_cur] + 0xC1));
	return i;
}

/* ------------------------------------------------------------ TSan interface */

#define A(n) void __tsan_read##n(void *p) { acc(p, n, K_R); } void __tsan_write##n(void *p) { acc(p, n, K_W); } \
	void __tsan_unaligned_read##n(void *p) { acc(p, n, K_R); } void __tsan_unaligned_write##n(void *p) { acc(p, n, K_W); } \
	void __tsan_read##n##_pc(void *p, void *q) { acc(p, n, K_R); } void __tsan_write##n##_pc(void *p, void *q) { acc(p, n, K_W); }
A(1) A(2) A(4) A(8) A(16)
void __tsan_read_range(void *p, size_t n) { acc(p, n, K_R); }
void __tsan_write_range(void *p, size_t n) { acc(p, n, K_W); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}

static bool acq(int o) { return o == __ATOMIC_ACQUIRE || o == __ATOMIC_CONSUME || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
static bool rel(int o) { return o == __ATOMIC_RELEASE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }

static void s_load(const void *p, int o) {
	struct sync *s = sync_of(p); struct fiber *f = &F[mc_cur];
	if (acq(o)) vjoin(&f->vc, &s->vc); else vjoin(&f->acqf, &s->vc);
}
static void s_store(const void *p, int o) {
	struct sync *s = sync_of(p); struct fiber *f = &F[mc_cur];
	if (rel(o)) { s->vc = f->vc; vjoin(&s->vc, &f->relf); tick(); } else s->vc = f->relf;
}
static void s_rmw(const void *p, int o) {
	struct sync *s = sync_of(p); struct fiber *f = &F[mc_cur];
	if (acq(o)) vjoin(&f->vc, &s->vc); else vjoin(&f->acqf, &s->vc);
	if (rel(o)) { vjoin(&s->vc, &f->vc); tick(); }
	vjoin(&s->vc, &f->relf);
}
/* point for a load; repeated loads of an unchanged value are not separate points */
static void lpoint(const void *p, uint64_t v) {
	struct fiber *f = &F[mc_cur];
	if (f->laddr == p && f->lval == v) {
		if (++f->lrep >= 2) { ++nsteps_exec; if (nsteps_exec > horizon) mc_violation("execution does not terminate (spinning)");
			if (f->lrep % 64 == 63) { f->solo = 100000; schedule(); } return; }
		int r = f->lrep; schedule(); f->lrep = r;
	} else { schedule(); f->lrep = 0; }
	f->laddr = p;
}

static bool live_run(void) { return mc_in_run != 0; }

#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T *p, int o) { \
	if (!live_run()) return *p; \
	lpoint((void *)p, (uint64_t)*p); \
	T v = *p; F[mc_cur].lval = (uint64_t)v; acc((void *)p, sizeof(T), K_AR); ev((void *)p, 0); s_load((void *)p, o); return v; } \
void __tsan_atomic##bits##_store(volatile T *p, T v, int o) { \
	if (!live_run()) { *p = v; return; } \
	point(); acc((void *)p, sizeof(T), K_AW); ev((void *)p, 1); s_store((void *)p, o); *p = v; } \
T __tsan_atomic##bits##_exchange(volatile T *p, T v, int o) { \
	T r; if (!live_run()) { r = *p; *p = v; return r; } \
	point(); r = *p; acc((void *)p, sizeof(T), K_AW); ev((void *)p, 1); s_rmw((void *)p, o); *p = v; return r; } \
T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int o) { T r; if (live_run()) { point(); acc((void *)p, sizeof(T), K_AW); ev((void *)p, 1); s_rmw((void *)p, o); } r = *p; *p = r + v; return r; } \
T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int o) { T r; if (live_run()) { point(); acc((void *)p, sizeof(T), K_AW); ev((void *)p, 1); s_rmw((void *)p, o); } r = *p; *p = r - v; return r; } \
T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int o) { T r; if (live_run()) { point(); acc((void *)p, sizeof(T), K_AW); ev((void *)p, 1); s_rmw((void *)p, o); } r = *p; *p = r & v; return r; } \
T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int o) { T r; if (live_run()) { point(); acc((void *)p, sizeof(T), K_AW); ev((void *)p, 1); s_rmw((void *)p, o); } r = *p; *p = r | v; return r; } \
T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int o) { T r; if (live_run()) { point(); acc((void *)p, sizeof(T), K_AW); ev((void *)p, 1); s_rmw((void *)p, o); } r = *p; *p = r ^ v; return r; } \
T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int o) { T r; if (live_run()) { point(); acc((void *)p, sizeof(T), K_AW); ev((void *)p, 1); s_rmw((void *)p, o); } r = *p; *p = ~(r & v); return r; } \
static int cas##bits(volatile T *p, T *e, T v, int so, int fo, bool weak) { \
	if (!live_run()) { if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
	point(); acc(e, sizeof(T), K_R); \
	bool same = *p == *e; \
	if (same && weak && mc_spurious && nf > 1 && mc_choose(2, 1, "spurious CAS failure")) same = false; \
	if (same) { acc((void *)p, sizeof(T), K_AW); ev((void *)p, 1); s_rmw((void *)p, so); *p = v; return 1; } \
	acc((void *)p, sizeof(T), K_AR); ev((void *)p, 0); s_load((void *)p, fo); acc(e, sizeof(T), K_W); *e = *p; return 0; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int so, int fo) { return cas##bits(p, e, v, so, fo, false); } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int so, int fo) { return cas##bits(p, e, v, so, fo, true); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int so, int fo) { cas##bits(p, &e, v, so, fo, false); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

void __tsan_atomic_thread_fence(int o) {
	if (!live_run()) return;
	struct fiber *f = &F[mc_cur];
	if (acq(o)) vjoin(&f->vc, &f->acqf);
	if (rel(o)) { f->relf = f->vc; tick(); }
}
void __tsan_atomic_signal_fence(int o) {}

/* ------------------------------------------------------------ pthreads */

int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
	point();
	if (mc_fail_create && mc_choose(2, 1, "pthread_create fails")) { mc_note("pthread_create fails"); mc_create_failed = 1; return EAGAIN; }
	int i = spawn(fn, arg);
	vjoin(&F[i].vc, &F[mc_cur].vc); F[i].vc.c[i] = 1; tick();
	*t = i + 1;
	return 0;
}
int __wrap_pthread_join(pthread_t t, void **ret) {
	int i = (int)t - 1;
	if (i < 0 || i >= nf || F[i].joined) mc_violation("pthread_join of a thread that cannot be joined");
	point();
	if (F[i].st != F_DONE) block(F_JOIN, (void *)(intptr_t)i);
	F[i].joined = 1; setchain(mc_cur, mix(chain[mc_cur] ^ mix(chain[i] + 5)));
	vjoin(&F[mc_cur].vc, &F[i].vc);
	if (ret) *ret = F[i].ret;
	return 0;
}
int __wrap_pthread_detach(pthread_t t) { return 0; }
pthread_t __wrap_pthread_self(void) { return mc_cur + 1; }
int __wrap_pthread_setname_np(pthread_t t, const char *n) { return 0; }
enum { SK_NONE, SK_MUTEX = 1, SK_COND = 2, SK_SEM = 3, SK_DEAD = 4 };
static struct sync *sk(void *p, int kind) {
	struct sync *s = sync_of(p);
	if (s->kind == SK_DEAD) mc_violation("use of a destroyed mutex, condition or semaphore");
	s->kind = kind;
	return s;
}
static struct sync *sk_init(void *p, int kind) { struct sync *s = sync_of(p); s->kind = kind; s->owner = -1; return s; }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { if (mc_in_run) sk_init(m, SK_MUTEX); return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) {
	if (!mc_in_run) return 0;
	struct sync *s = sk(m, SK_MUTEX);
	if (s->owner >= 0) mc_violation("destroying a locked mutex");
	for (int i = 0; i < nf; ++i) if (F[i].st == F_MUTEX && F[i].waiting == m) mc_violation("destroying a mutex with waiters");
	s->kind = SK_DEAD; return 0;
}
static void lock(void *m) {
	struct sync *s = sk(m, SK_MUTEX);
	if (s->owner == mc_cur) mc_violation("self-deadlock: thread %d locks a mutex it holds%s", mc_cur, F[mc_cur].insig ? " (in a signal handler)" : "");
	while (s->owner >= 0) block(F_MUTEX, m);
	s->owner = mc_cur; ev(m, 1);
	vjoin(&F[mc_cur].vc, &s->vc);
}
static void unlock(void *m) {
	struct sync *s = sk(m, SK_MUTEX);
	if (s->owner != mc_cur) mc_violation("unlock of a mutex that is not held");
	s->owner = -1; ev(m, 1);
	s->vc = F[mc_cur].vc; tick();
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (mc_in_run) { point(); lock(m); } return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (!mc_in_run) return 0; point(); if (sk(m, SK_MUTEX)->owner >= 0) { ev(m, 0); return EBUSY; } lock(m); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (mc_in_run) unlock(m); return 0; }
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { if (mc_in_run) sk_init(c, SK_COND); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) {
	if (!mc_in_run) return 0;
	struct sync *s = sk(c, SK_COND);
	for (int i = 0; i < nf; ++i) if (F[i].st == F_COND && F[i].waiting == c) mc_violation("destroying a condition variable with waiters");
	s->kind = SK_DEAD; return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
	point();
	sk(c, SK_COND); ev(c, 1);
	unlock(m);
	if (mc_spurious && mc_choose(2, 1, "spurious wakeup")) { point(); }
	else { F[mc_cur].cmutex = m; block(F_COND, c); }
	lock(m);
	return 0;
}
static void wake(int i) { F[i].st = F_READY; F[i].waiting = NULL; }
int __wrap_pthread_cond_signal(pthread_cond_t *c) {
	point();
	sk(c, SK_COND); ev(c, 1);
	int w[MAXF], n = 0;
	for (int i = 0; i < nf; ++i) if (F[i].st == F_COND && F[i].waiting == c) w[n++] = i;
	if (n) wake(w[mc_choose(n, 0, "who wakes")]);
	return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) {
	point();
	sk(c, SK_COND); ev(c, 1);
	for (int i = 0; i < nf; ++i) if (F[i].st == F_COND && F[i].waiting == c) wake(i);
	return 0;
}
int __wrap_pthread_once(pthread_once_t *o, void (*fn)(void)) {
	static int dummy; (void)dummy;
	point();
	struct sync *s = sync_of(o); ev(o, 1);
	if (s->val == 0) { s->val = 1; fn(); s->val = 2; vjoin(&s->vc, &F[mc_cur].vc); tick(); }
	else { while (s->val == 1) { F[mc_cur].solo = 100000; schedule(); } vjoin(&F[mc_cur].vc, &s->vc); }
	return 0;
}
int mc_nosem;
int __wrap_sem_init(sem_t *p, int sh, unsigned v) { if (mc_nosem) { errno = ENOSYS; return -1; } struct sync *s = sk_init(p, SK_SEM); s->val = v; return 0; }
int __wrap_sem_destroy(sem_t *p) {
	struct sync *s = sk(p, SK_SEM);
	for (int i = 0; i < nf; ++i) if (F[i].st == F_SEM && F[i].waiting == p) mc_violation("destroying a semaphore with waiters");
	s->kind = SK_DEAD; return 0;
}
int __wrap_sem_post(sem_t *p) { point(); struct sync *s = sk(p, SK_SEM); ++s->val; ev(p, 1); vjoin(&s->vc, &F[mc_cur].vc); tick(); return 0; }
int __wrap_sem_wait(sem_t *p) {
	point();
	struct sync *s = sk(p, SK_SEM);
	if (mc_spurious && mc_choose(2, 1, "sem_wait EINTR")) { errno = EINTR; return -1; }
	while (s->val <= 0) block(F_SEM, p);
	--s->val; ev(p, 1); vjoin(&F[mc_cur].vc, &s->vc);
	return 0;
}
int __wrap_sem_trywait(sem_t *p) { point(); struct sync *s = sk(p, SK_SEM); ev(p, 1); if (s->val <= 0) { errno = EAGAIN; return -1; } --s->val; vjoin(&F[mc_cur].vc, &s->vc); return 0; }
void __wrap_abort(void) { char w[600]; where(w, sizeof w); mc_violation("abort() called (a failed assertion); at%s", w); }

/* The kernel writes into buffers. */
struct statx;
int __real_statx(int, const char *, int, unsigned, struct statx *);
int __wrap_statx(int d, const char *p, int fl, unsigned m, struct statx *b) { int r = __real_statx(d, p, fl, m, b); if (r == 0) acc(b, 256, K_W); return r; }
ssize_t __real_getdents64(int, void *, size_t);
ssize_t __wrap_getdents64(int fd, void *b, size_t n) { ssize_t r = __real_getdents64(fd, b, n); if (r > 0) acc(b, r, K_W); return r; }

int __real_openat(int, const char *, int, ...); int __real_close(int);
int mc_openat_hook(int d, const char *p, int fl) __attribute__((weak));
int __wrap_openat(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); if (mc_in_run) ev(&fdtab, 1); if (mc_openat_hook && mc_openat_hook(d, p, fl)) return -1; return __real_openat(d, p, fl, m); }
int __wrap_close(int fd) { if (mc_in_run) ev(&fdtab, 1); return __real_close(fd); }

/* ------------------------------------------------------------ driver */
static int basefd;

static void *body(void *a) { mc_body(); return NULL; }

static void one_execution(void) {
	++gen; if (gen == 0) { gen = 1; memset(syncs, 0, sizeof syncs); }
	memset(hvalid, 0, (heap_top >> 3) + 8);
	heap_top = 64; nlive = 0;
	memset(chain, 0, sizeof chain); hsum = 0; cut = false; sched_choice = false;
	exited = false; mc_frozen = 0; nf = 0; ntr = 0; spent = 0; nsteps_exec = 0; obs = 1469598103934665603ull;
	mc_sig_budget = 0; mc_create_failed = 0;
	mc_reset();
	mc_in_run = 1;
	mc_cur = spawn(body, NULL);
	mcs_switch(&sched_sp, F[0].sp);
	mc_in_run = 0;
	if (cut) { syscall(SYS_close_range, basefd, ~0u, 0); ++execs; return; }
	if (ntr < nprefix) { printf("MCS-ERROR nondeterminism: execution ended at choice %d of %d\n", ntr, nprefix); fflush(stdout); _exit(3); }
	if (exited) syscall(SYS_close_range, basefd, ~0u, 0);
	else for (int i = 1; i < nf; ++i) if (!F[i].joined) mc_violation("thread %d was never joined", i);
	mc_finish();
	++execs;
	if ((unsigned)ntr > maxpts) maxpts = ntr;
	/* distinct outcomes */
	uint64_t h = obs | 1; size_t i = h % obs_cap;
	while (obs_tab[i] && obs_tab[i] != h) i = (i + 1) % obs_cap;
	if (!obs_tab[i] && nobs_distinct < obs_cap / 2) { obs_tab[i] = h; ++nobs_distinct; }
}

static void crash(int sig, siginfo_t *si, void *ctx) {
	char b[300]; void *bt[30]; int n = backtrace(bt, 30); size_t o = 0; b[0] = 0;
	for (int i = 3; i < n && i < 10; ++i) o += snprintf(b + o, sizeof b - o, " %p", bt[i]);
	char m[500]; snprintf(m, sizeof m, "crash with signal %d; at%s", sig, b);
	out_violation(m);
	_exit(1);
}

int main(int argc, char **argv) {
	double limit = 1e9; unsigned long long maxex = ~0ull;
	const char *replay = NULL;
	int i = 1;
	for (; i < argc && argv[i][0] == '-' && argv[i][1] != '-'; i += 2) {
		const char *v = argv[i + 1];
		switch (argv[i][1]) {
		case 'k': K = atoi(v); break;
		case 'p': sscanf(v, "%d/%d", &part, &nparts); break;
		case 't': limit = atof(v); break;
		case 'm': maxex = strtoull(v, 0, 10); break;
		case 'r': replay = v; break;
		case 'c': use_cache = atoi(v); break;
		case 's': mc_spurious = atoi(v); break;
		case 'f': freecost = atoi(v); break;
		case 'h': horizon = strtoul(v, 0, 10); break;
		}
	}
	if (i < argc && !strcmp(argv[i], "--")) ++i;
	for (int j = i; j < argc; ++j) { strncat(argline, argv[j], sizeof argline - strlen(argline) - 2); strcat(argline, " "); }
	tr = mmap(0, MAXCH * sizeof *tr, 3, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	stacks = mmap(0, MAXF * STACK, 3, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	heap = mmap((void *)0x200000000000, HEAP, 3, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
	hvalid = mmap(0, HEAP / 8 + 64, 3, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	sh_heap = mmap(0, HEAP / 8 * sizeof(struct cell), 3, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	sh_stack = mmap(0, MAXF * STACK / 8 * sizeof(struct cell), 3, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	data_len = &_end - &__data_start;
	sh_data = mmap(0, (data_len / 8 + 2) * sizeof(struct cell), 3, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	obs_tab = calloc(obs_cap, 8);
	if (heap == MAP_FAILED || sh_heap == MAP_FAILED || !obs_tab) { perror("mmap"); return 3; }
	static char alt[65536];
	stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt };
	sigaltstack(&ss, NULL);
	struct sigaction sa = { .sa_sigaction = crash, .sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESETHAND };
	sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGFPE, &sa, NULL); sigaction(SIGILL, &sa, NULL); sigaction(SIGABRT, &sa, NULL);
	{ void *bt[4]; backtrace(bt, 4); }
	syscall(SYS_close_range, 3, ~0u, 0);
	mc_args(argc - i, argv + i);
	basefd = dup(0); __real_close(basefd);
	hc = calloc(hc_cap, sizeof *hc);
	if (replay) use_cache = 0;
	struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
	bool complete = true;
	if (replay) {
		mc_replaying = 1;
		int a, b, m = 0; const char *p = replay;
		while (sscanf(p, " %d:%d", &a, &b) == 2) {
			/* unknown n and cost: record as wildcards by running with a prefix built lazily */
			tr[a].c = b; if (a + 1 > m) m = a + 1;
			while (isspace((unsigned char)*p)) ++p;
			while (*p && !isspace((unsigned char)*p)) ++p;
		}
		/* n/cost are filled in by re-running with growing prefixes */
		int want[4096][2], nw = 0; p = replay;
		while (nw < 4096 && sscanf(p, " %d:%d", &a, &b) == 2) { want[nw][0] = a; want[nw++][1] = b; while (isspace((unsigned char)*p)) ++p; while (*p && !isspace((unsigned char)*p)) ++p; }
		memset(tr, 0, (m + 1) * sizeof *tr);
		for (int j = 0; j <= nw; ++j) {
			mc_replaying = j == nw;
			one_execution();
			if (j < nw) { tr[want[j][0]].c = want[j][1]; nprefix = want[j][0] + 1; }
		}
		printf("MCS-OK replayed\n");
		return 0;
	}
	for (;;) {
		one_execution();
		if (!next_execution()) break;
		if (execs >= maxex) { complete = false; break; }
		if ((execs & 255) == 0) {
			struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
			if (t.tv_sec - t0.tv_sec + (t.tv_nsec - t0.tv_nsec) / 1e9 > limit) { complete = false; break; }
		}
	}
	printf("MCS-OK {\"execs\": %llu, \"steps\": %llu, \"points\": %llu, \"maxpts\": %llu, \"pruned\": %llu, \"states\": %zu, \"outcomes\": %u, \"complete\": %s}\n",
	       execs - (part != 0), steps, points, maxpts, pruned, hc_n, nobs_distinct, complete ? "true" : "false");
	return 0;
}
