// What a process sees of its own state, as text.
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
static int report(char *buf, int size, int dropcloexec) {
	int n = 0;
	char p[64], l[512];
	for (int fd = 0; fd < 24; ++fd) {
		int f = fcntl(fd, F_GETFD);
		if (f < 0 || (dropcloexec && (f & FD_CLOEXEC))) continue;
		snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
		int k = readlink(p, l, sizeof l - 1);
		l[k < 0 ? 0 : k] = 0;
		struct stat sb = {0};
		fstat(fd, &sb);
		n += snprintf(buf + n, size - n, "fd%d=%s,%o,mode%o,at%lld\n", fd, l, fcntl(fd, F_GETFL), sb.st_mode, S_ISREG(sb.st_mode) ? (long long)lseek(fd, 0, SEEK_CUR) : 0);
	}
	int k = readlink("/proc/self/cwd", l, sizeof l - 1);
	l[k < 0 ? 0 : k] = 0;
	n += snprintf(buf + n, size - n, "cwd=%s\n", l);
	for (int r = 0; r < RLIMIT_NLIMITS; ++r) {
		struct rlimit rl;
		if (getrlimit(r, &rl) == 0) n += snprintf(buf + n, size - n, "r%d=%lld,%lld\n", r, (long long)rl.rlim_cur, (long long)rl.rlim_max);
	}
	sigset_t set;
	sigprocmask(SIG_BLOCK, NULL, &set);
	for (int s = 1; s < 65; ++s) {
		struct sigaction sa;
		if (s == 32 || s == 33) continue;
		int ign = sigaction(s, NULL, &sa) == 0 && sa.sa_handler == SIG_IGN, blk = sigismember(&set, s) > 0;
		if (ign || blk) n += snprintf(buf + n, size - n, "sig%d=%s%s\n", s, ign ? "ignored" : "", blk ? "blocked" : "");
	}
	mode_t m = umask(0);
	umask(m);
	n += snprintf(buf + n, size - n, "umask=%o\n", m);
	return n;
}
