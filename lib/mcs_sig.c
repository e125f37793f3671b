/* C15: signal hooks under the controlled scheduler, with signals injected at every scheduling point.
 * args: HOOKS SIGNALS BUDGET SETUP THREAD0 [THREAD1]     (SETUP may start with - for no semaphores, = for signals that were being ignored,
 *   ! the same, insisting that they do not kill)
 *   HOOKS   e.g. A28,B10c,C10o     (slot, signal, c: SH_CONTINUE, o: SH_ONESHOT; E is the atsigexit() slot)
 *   threads: upper case registers, lower case removes, R: fork, reset the dispositions in the child and end */
#define _GNU_SOURCE
#include "mcs.h"
#include "sighook.h"
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>

extern char __start_shbss[], __stop_shbss[], __start_shdata[], __stop_shdata[];
static char *snap_b, *snap_d;

enum { NH = 8, ND = 16 };
static struct hk { int sig, flags, conf; struct sighook *h; int rb, re, ub, ue; int runs, active; } H[NH];   /* times; 0 = not yet */
static struct dl { int sig, fiber, b, e; int runs[NH]; bool cont_run; } D[ND];
static int nd, now_, killed, killed_d;
static int sigs[8], nsigs, sigs0[8], nsigs0, budget; static const char *setup, *prog[3];
static struct sigaction disp[65], orig[65];
static int curd[4];                 /* innermost delivery on each fiber */
static unsigned long blocked[4];
static bool strict;
static int T(void) { return ++now_; }

void mc_args(int argc, char **argv) {
	char *s = strdup(argv[0]);
	for (char *t = strtok(s, ","); t; t = strtok(NULL, ",")) {
		int i = t[0] - 'A'; char *e;
		H[i].conf = 1; H[i].sig = strtol(t + 1, &e, 10);
		for (; *e; ++e) H[i].flags |= *e == 'c' ? SH_CONTINUE : SH_ONESHOT;
	}
	s = strdup(argv[1]);
	for (char *t = strtok(s, ","); t; t = strtok(NULL, ",")) sigs[nsigs++] = atoi(t);
	memcpy(sigs0, sigs, sizeof sigs); nsigs0 = nsigs;
	budget = atoi(argv[2]); setup = argv[3];
	bool ign = false;
	strict = true;
	for (; *setup == '-' || *setup == '=' || *setup == '!'; ++setup) { extern int mc_nosem; if (*setup == '-') mc_nosem = 1; else { ign = true; strict = *setup == '!'; } }
	 prog[0] = argv[4]; prog[1] = argc > 5 ? argv[5] : ""; prog[2] = argc > 6 ? argv[6] : "";
	size_t nb = __stop_shbss - __start_shbss, n = __stop_shdata - __start_shdata;
	snap_b = malloc(nb); memcpy(snap_b, __start_shbss, nb); snap_d = malloc(n); memcpy(snap_d, __start_shdata, n);
	for (int i = 1; i < 65; ++i) { orig[i].sa_handler = i == SIGPIPE || ign ? SIG_IGN : SIG_DFL; orig[i].sa_flags = 0; }
}
void mc_reset(void) {
	memcpy(__start_shbss, snap_b, __stop_shbss - __start_shbss); memcpy(__start_shdata, snap_d, __stop_shdata - __start_shdata);
	for (int i = 0; i < NH; ++i) { H[i].h = NULL; H[i].rb = H[i].re = H[i].ub = H[i].ue = H[i].runs = H[i].active = 0; }
	memset(D, 0, sizeof D); memset(curd, 0, sizeof curd); memset(blocked, 0, sizeof blocked);
	memcpy(sigs, sigs0, sizeof sigs); nsigs = nsigs0;
	nd = 1; now_ = 0; killed = 0;
	memcpy(disp, orig, sizeof disp);
}

int __wrap_sigaction(int sig, const struct sigaction *n, struct sigaction *o) {
	if (!mc_in_run) return 0;
	if (sig < 1 || sig > 64 || ((sig == SIGKILL || sig == SIGSTOP) && n)) { errno = EINVAL; return -1; }
	if (sig == 32 || sig == 33) { errno = EINVAL; return -1; }
	if (n && mc_in_run) mc_point();
	if (o) *o = disp[sig];
	if (n) disp[sig] = *n;
	return 0;
}
typedef void (*sh)(int);
sh __wrap_signal(int sig, sh f) { sh o = disp[sig].sa_handler; mc_point(); disp[sig].sa_handler = f; disp[sig].sa_flags = 0; return o; }
int __wrap_pthread_sigmask(int how, const sigset_t *s, sigset_t *o) { return 0; }
static void die(int sig) {
	if (disp[sig].sa_handler != SIG_DFL) mc_violation("signal re-raised without restoring its default action");
	killed = sig; killed_d = curd[mc_cur]; D[killed_d].e = T();
	mc_note("process killed by signal %d", sig);
	mc_exit();
}
int __wrap_raise(int sig) { die(sig); return 0; }
long __real_syscall(long nr, ...);
long __wrap_syscall(long nr, ...) {
	if (nr == SYS_close_range) { va_list ap; va_start(ap, nr); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long); va_end(ap); return __real_syscall(nr, a, b, c); }
	if (nr == SYS_gettid) return 100 + mc_cur;
	va_list ap; va_start(ap, nr); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long); va_end(ap);
	if (nr == SYS_rt_tgsigqueueinfo) die((int)c);
	mc_violation("unexpected syscall %ld", nr);
}
pid_t __wrap_getpid(void) { return 100; }

static void hookfn(int sig, siginfo_t *info, void *arg) {
	struct hk *h = arg;
	int d = curd[mc_cur];
	mc_note("hook %c runs (delivery %d)", (char)('A' + (h - H)), d);
	if (!h->rb) mc_violation("hook %c runs before its registration", (char)('A' + (h - H)));
	if (h->ue) mc_violation("hook %c runs after its removal has returned", (char)('A' + (h - H)));
	if (!d || D[d].sig != sig || info->si_signo != sig) mc_violation("hook called with the wrong signal");
	if (h->sig != sig && h - H != 'E' - 'A') mc_violation("hook for signal %d called for signal %d", h->sig, sig);
	if (D[d].runs[h - H]++) mc_violation("hook %c runs twice for one delivery", (char)('A' + (h - H)));
	if (h->flags & SH_CONTINUE) D[d].cont_run = true;
	if ((h->flags & SH_ONESHOT) && h->runs) mc_violation("one-shot hook %c runs twice", (char)('A' + (h - H)));
	++h->runs; ++h->active;
	mc_point();
	if (h->ue) mc_violation("removal of hook %c returned while it was still running", (char)('A' + (h - H)));
	errno = 12345;
	--h->active;
}

static int can(int f) {
	for (int i = 0; i < nsigs; ++i) if (disp[sigs[i]].sa_flags & SA_SIGINFO && !(blocked[f] >> sigs[i] & 1)) return 1;
	return 0;
}
static void deliver(int f) {
	int c[8], n = 0;
	for (int i = 0; i < nsigs; ++i) if (disp[sigs[i]].sa_flags & SA_SIGINFO && !(blocked[f] >> sigs[i] & 1)) c[n++] = sigs[i];
	int sig = c[mc_choose(n, 0, "which signal")];
	struct sigaction a = disp[sig];
	if (nd >= ND) mc_violation("harness: too many deliveries");
	int d = nd++, prev = curd[f];
	D[d].sig = sig; D[d].fiber = f; D[d].b = T(); curd[f] = d;
	mc_note("signal %d delivered to thread %d (delivery %d)", sig, f, d);
	siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = sig; si.si_code = SI_USER;
	unsigned long ob = blocked[f]; if (!(a.sa_flags & SA_NODEFER)) blocked[f] |= 1ul << sig;
	a.sa_sigaction(sig, &si, NULL);
	blocked[f] = ob;
	D[d].e = T(); curd[f] = prev;
	mc_note("delivery %d ends", d);
}

static void op(char c) {
	if (c == 'R') {
		mc_point();
		mc_frozen = 1; mc_sig_budget = 0;
		mc_note("fork");
		if (sigreset() != 0) mc_violation("sigreset() failed");
		for (int i = 1; i < 65; ++i)
			if (disp[i].sa_handler != orig[i].sa_handler || (disp[i].sa_flags & SA_SIGINFO)) mc_violation("sigreset() left signal %d with a foreign disposition", i);
		killed = -1;
		mc_exit();
	}
	int i = (c & ~32) - 'A';
	struct hk *h = &H[i];
	if (c < 'a') {
		mc_note("register %c", c);
		h->rb = T();
		h->h = c == 'E' ? atsigexit(hookfn, h) : sighook(h->sig, hookfn, h, h->flags);
		h->re = T();
		if (!h->h) mc_violation("registration failed");
	} else {
		mc_note("remove %c", c);
		h->ub = T();
		sigunhook(h->h);
		h->ue = T();
		if (h->active) mc_violation("removal of hook %c returned while it was running", (char)('A' + i));
		mc_note("removed %c", c);
	}
}
static void *thr(void *a) { for (const char *p = a; *p; ++p) op(*p); return NULL; }

void mc_body(void) {
	mc_can_deliver = can; mc_sig_deliver = deliver;
	for (const char *p = setup; *p; ++p) op(*p);
	mc_sig_budget = budget;
	pthread_t t[2]; int n = 0;
	for (int i = 1; i < 3; ++i) if (*prog[i]) { pthread_create(&t[n], NULL, thr, (void *)(strcmp(prog[i], "-") ? prog[i] : "")); ++n; }
	thr((void *)prog[0]);
	mc_point();
	for (int i = 0; i < n; ++i) pthread_join(t[i], NULL);
	mc_sig_budget = 0;
	/* the list must still work: one final delivery of every signal, hooks as registered */
	for (int i = 0; i < nsigs; ++i) if (disp[sigs[i]].sa_flags & SA_SIGINFO) {
		int e = errno;
		unsigned long s = sigs[0]; int m = nsigs; sigs[0] = sigs[i]; nsigs = 1;
		deliver(mc_cur);
		sigs[0] = s; nsigs = m;
		errno = e;
	}
}

static bool fatal(int sig) { return orig[sig].sa_handler != SIG_IGN && sig != SIGWINCH && sig != SIGCHLD && sig != SIGURG && sig != SIGCONT; }

void mc_finish(void) {
	if (killed == -1) return;
	for (int d = 1; d < nd; ++d) {
		bool complete = D[d].e != 0;
		bool maycont = false, mustcont = false;
		for (int i = 0; i < NH; ++i) {
			struct hk *h = &H[i];
			if (!h->conf || !h->rb) continue;
			bool exitslot = i == 'E' - 'A';
			bool overlaps = h->rb < (complete ? D[d].e : now_ + 1) && (!h->ue || h->ue > D[d].b);
			bool covers = h->re && h->re < D[d].b && (!h->ub || (complete && h->ub > D[d].e));
			bool mine = exitslot ? d == killed_d && killed : h->sig == D[d].sig;
			if (!overlaps && D[d].runs[i]) mc_violation("hook %c ran for a delivery outside its registration", 'A' + i);
			if (complete && covers && mine && !(h->flags & SH_ONESHOT) && D[d].runs[i] != 1)
				mc_violation("hook %c was registered throughout delivery %d of signal %d but ran %d times", 'A' + i, d, D[d].sig, D[d].runs[i]);
			if (complete && covers && mine && (h->flags & SH_ONESHOT) && h->runs != 1) mc_violation("one-shot hook %c ran %d times", 'A' + i, h->runs);
			if (!exitslot && h->sig == D[d].sig && (h->flags & SH_CONTINUE)) { if (D[d].runs[i]) maycont = mustcont = true; }
			mc_obs(D[d].runs[i] + 10 * i + 100 * d);
		}
		if (!complete) continue;
		bool k = killed && d == killed_d;
		if (!strict && !k && !fatal(D[d].sig)) continue;
		if (fatal(D[d].sig) || !strict ? k == maycont : k) mc_violation("delivery %d of signal %d %s the process", d, D[d].sig, k ? "killed" : "did not kill");
	}
	mc_obs(killed);
}
