// Exhaustive exploration of operation sequences on the real trie, against a list of keys.
// usage: trie_mc MODE DEPTH KIND KEYHEX...   MODE: dfs | gray | fail | cycle     KIND: s (strings) | m (memory)
#include "trie.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <errno.h>

static long live, allocs; static long fail_at = -1;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
int __real_posix_memalign(void **, size_t, size_t); void *__real_aligned_alloc(size_t, size_t);
static bool refuse(void) { long n = allocs++; if (n == fail_at) { errno = ENOMEM; return true; } return false; }
void *__wrap_malloc(size_t n) { if (refuse()) return NULL; ++live; return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t n) { if (refuse()) return NULL; ++live; return __real_calloc(a, n); }
void *__wrap_realloc(void *p, size_t n) { if (refuse()) return NULL; if (!p) ++live; return __real_realloc(p, n); }
void *__wrap_aligned_alloc(size_t a, size_t n) { if (refuse()) return NULL; ++live; return __real_aligned_alloc(a, n); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { if (refuse()) return ENOMEM; ++live; return __real_posix_memalign(p, a, n); }
void __wrap_free(void *p) { if (p) --live; __real_free(p); }

#define MAXK 24
#define MAXP 4096
static int K; static char kind;
static char *key[MAXK]; static size_t klen[MAXK];      // klen includes the NUL for strings
static char *probe[MAXP]; static size_t plen[MAXP]; static int P;
static long vals[256];
static unsigned long nseq, nops, nlook;

static char path[4096];
static void die(const char *what, const char *q) {
	printf("BAD %s", what);
	if (q) { printf(" query="); for (const char *c = q; *c; ++c) printf("%02x", (unsigned char)*c); }
	printf(" after %s\n", path); fflush(stdout); _Exit(1);
}

struct st { struct trie t; int order[MAXK]; int n; bool in[MAXK]; int val[MAXK]; };

static struct trie_leaf *tfind(struct st *s, int k) { return kind == 's' ? trie_find_str(&s->t, key[k]) : trie_find_mem(&s->t, key[k], klen[k]); }

static void addprobe(const char *p, size_t n) {
	if (kind == 's' && memchr(p, 0, n)) return;
	for (int i = 0; i < P; ++i) if (plen[i] == n && !memcmp(probe[i], p, n)) return;
	if (P >= MAXP) return;
	size_t m = kind == 's' ? n + 1 : n;
	probe[P] = __real_malloc(m ? m : 1); memcpy(probe[P], p, n); if (kind == 's') probe[P][n] = 0;
	plen[P++] = n;
}

static void check(struct st *s) {
	// iteration: every key once, in order of insertion
	int i = 0; struct trie_leaf *prev = NULL;
	for_trie (leaf, &s->t) {
		if (i >= s->n) die("iteration visits too many keys", NULL);
		int k = s->order[i++];
		if (leaf->length != klen[k] || memcmp(leaf->key, key[k], klen[k])) die("iteration is out of order", NULL);
		if (leaf->value != &vals[s->val[k]]) die("iteration finds a wrong value", NULL);
		if (leaf->prev != prev) die("list is not linked back", NULL);
		prev = leaf;
	}
	if (i != s->n) die("iteration misses a key", NULL);
	for (int k = 0; k < K; ++k) {
		struct trie_leaf *l = tfind(s, k);
		if (!l != !s->in[k]) die(l ? "an absent key is found" : "a present key is not found", kind == 's' ? key[k] : NULL);
		if (l && (l->length != klen[k] || memcmp(l->key, key[k], klen[k]) || l->value != &vals[s->val[k]])) die("a key has a wrong value", kind == 's' ? key[k] : NULL);
		void *v = kind == 's' ? trie_get_str(&s->t, key[k]) : trie_get_mem(&s->t, key[k], klen[k]);
		if (v != (s->in[k] ? (void *)&vals[s->val[k]] : NULL)) die("get returns a wrong value", NULL);
	}
	for (int p = 0; p < P; ++p) {
		++nlook;
		int self = -1, best = -1; bool post = false;
		for (int j = 0; j < s->n; ++j) {
			int k = s->order[j]; size_t n = klen[k] - (kind == 's');
			if (n == plen[p] && !memcmp(key[k], probe[p], n)) self = k;
			if (n <= plen[p] && !memcmp(key[k], probe[p], n) && (best < 0 || n > klen[best] - 1)) best = k;
			if (n >= plen[p] && !memcmp(key[k], probe[p], plen[p])) post = true;
		}
		struct trie_leaf *l = kind == 's' ? trie_find_str(&s->t, probe[p]) : trie_find_mem(&s->t, probe[p], plen[p]);
		if (!l != (self < 0) || (l && l->value != &vals[s->val[self]])) die("exact lookup is wrong", kind == 's' ? probe[p] : NULL);
		if (kind != 's') continue;
		l = trie_find_prefix(&s->t, probe[p]);
		if (!l != (best < 0) || (l && (l->length != klen[best] || memcmp(l->key, key[best], klen[best])))) die("prefix lookup is wrong", probe[p]);
		l = trie_find_postfix(&s->t, probe[p]);
		if (!l != !post || (l && (l->length - 1 < plen[p] || memcmp(l->key, probe[p], plen[p])))) die("postfix lookup is wrong", probe[p]);
	}
}

// ops: 0..K-1 insert/remove key, K..2K-1 set the key again, 2K clear
static void sinit(struct st *s) { memset(s, 0, sizeof *s); trie_init(&s->t); }
static int step;
static bool apply(struct st *s, int op) {
	++nops; ++step;
	if (op == 2 * K) {
		if (!s->n) return false;
		trie_clear(&s->t); s->n = 0; memset(s->in, 0, sizeof s->in); return true;
	}
	int k = op % K; bool again = op >= K;
	if (again && !s->in[k]) return false;
	if (s->in[k] && !again) {
		struct trie_leaf *l = tfind(s, k);
		if (!l) die("a present key is not found", NULL);
		trie_remove(&s->t, l);
		int j = 0; while (s->order[j] != k) ++j;
		memmove(s->order + j, s->order + j + 1, sizeof(int) * (s->n - j - 1)); --s->n; s->in[k] = false;
		return true;
	}
	// pass the key in memory of exactly its own size
	char *c = __real_malloc(klen[k] ? klen[k] : 1); memcpy(c, key[k], klen[k]);
	int r = kind == 's' ? trie_set_str(&s->t, c, &vals[step & 255]) : trie_set_mem(&s->t, c, klen[k], &vals[step & 255]);
	__real_free(c);
	if (r != 0) die("insertion fails", NULL);
	s->val[k] = step & 255;
	if (!again) { s->order[s->n++] = k; s->in[k] = true; }
	return true;
}
static int seq[64];
static void render(int n) { char *p = path; *p = 0; for (int i = 0; i < n && p < path + 4000; ++i) p += sprintf(p, seq[i] == 2 * K ? "clear " : seq[i] >= K ? "set%d " : "toggle%d ", seq[i] % K); }

static void dfs(int n, int depth) {
	for (int op = 0; op <= 2 * K; ++op) {
		seq[n] = op;
		struct st s; sinit(&s); step = 0;
		for (int i = 0; i < n; ++i) apply(&s, seq[i]);
		render(n + 1);
		bool ok = apply(&s, op);
		if (ok) { ++nseq; check(&s); }
		trie_destroy(&s.t);
		if (live != 0) die("memory is not released by trie_destroy", NULL);
		if (ok && n + 1 < depth) dfs(n + 1, depth);
	}
}

int main(int argc, char **argv) {
	setvbuf(stdout, __real_malloc(1 << 16), _IOFBF, 1 << 16);
	const char *mode = argv[1]; int depth = atoi(argv[2]); kind = argv[3][0];
	K = argc - 4;
	for (int k = 0; k < K; ++k) {
		const char *h = argv[4 + k]; size_t n = strlen(h) / 2;
		klen[k] = n + (kind == 's');
		key[k] = __real_malloc(klen[k] ? klen[k] : 1);
		for (size_t i = 0; i < n; ++i) { unsigned x; sscanf(h + 2 * i, "%2x", &x); key[k][i] = x; }
		if (kind == 's') key[k][n] = 0;
	}
	for (int k = 0; k < K; ++k) {
		size_t n = klen[k] - (kind == 's');
		char b[2048]; memcpy(b, key[k], n); addprobe(b, n);
		if (kind == 's') for (size_t i = n > 20 ? n - 3 : 0; i < n; ++i) addprobe(b, i);
		if (kind == 's') for (int c = 0; c < 4; ++c) { b[n] = "\x01" "a\x70\xff"[c]; addprobe(b, n + 1); }
		memcpy(b, key[k], n);
		for (size_t i = 0; i < n; ++i) {
			if (n > 12 && i > 2 && i + 3 < n && i != n / 2) continue;
			char o = b[i];
			for (int x = 0; x < 3; ++x) { b[i] = o ^ (x == 0 ? 1 : x == 1 ? 0x10 : 0x80); addprobe(b, n); if (i + 1 < n) addprobe(b, i + 1 + (kind == 'm' ? n - i - 1 : 0)); }
			b[i] = o;
		}
	}
	if (!strcmp(mode, "dfs")) {
		dfs(0, depth);
	} else if (!strcmp(mode, "gray")) {
		// every subset of the keys, by single insertions and removals; DEPTH rotates which key changes most often
		struct st s; sinit(&s);
		unsigned long g = 0;
		for (unsigned long i = 1; i < 1ul << K; ++i) {
			unsigned long ng = i ^ (i >> 1); int k = __builtin_ctzl(ng ^ g);
			k = (k * 5 + depth) % K; if (K % 5 == 0) k = (__builtin_ctzl(ng ^ g) + depth) % K;
			snprintf(path, sizeof path, "%lu steps of the Gray code, rotation %d", i, depth);
			apply(&s, k); ++nseq; check(&s); g = ng;
		}
		trie_destroy(&s.t);
		if (live) die("memory is not released by trie_destroy", NULL);
	} else if (!strcmp(mode, "fail")) {
		// each allocation of the build-up fails in turn: the map must stay as it was, and usable
		for (long f = 0; ; ++f) {
			struct st s; sinit(&s); step = 0; allocs = 0; fail_at = f;
			bool hit = false;
			for (int round = 0; round < 2; ++round) for (int k0 = 0; k0 < K; ++k0) {
				int k = (k0 + depth) % K;
				snprintf(path, sizeof path, "allocation %ld failing, key %d", f, k);
				if (s.in[k]) continue;
				++nops; ++step;
				int r = kind == 's' ? trie_set_str(&s.t, key[k], &vals[step & 255]) : trie_set_mem(&s.t, key[k], klen[k], &vals[step & 255]);
				if (allocs > f && !hit) { hit = true; }
				else if (r != 0) die("insertion fails without an allocation failing", NULL);
				if (r == 0) { s.val[k] = step & 255; s.order[s.n++] = k; s.in[k] = true; }
				check(&s); ++nseq;
			}
			// and taken apart again, with the failure possibly landing in a removal
			for (int k = 0; k < K; ++k) { if (s.in[k]) apply(&s, k); check(&s); ++nseq; }
			hit = allocs > f;
			fail_at = -1;
			trie_destroy(&s.t);
			if (live) die("memory is not released by trie_destroy", NULL);
			if (!hit) break;
		}
	} else if (!strcmp(mode, "cycle")) {
		// steady-state use does not grow: freed slots are reused
		struct st s; sinit(&s); long at = 0;
		for (long r = 0; r < 4000; ++r) {
			for (int k = 0; k < K; ++k) { snprintf(path, sizeof path, "cycle %ld", r); apply(&s, k); }
			for (int k = 0; k < K; ++k) apply(&s, (k * 7 + depth) % K == k ? k : k);
			if (r == 50) at = live;
			if (r == 51) check(&s);
		}
		if (live > at) die("freed memory is not reused", NULL);
		++nseq;
		trie_destroy(&s.t);
	}
	printf("OK %lu %lu %lu\n", nseq, nops, nlook);
	return 0;
}
