// spy LOG EXIT ARGS...: append one record (cwd, open descriptors, soft descriptor limit, arguments) to LOG and exit as told.
// EXIT: a number; or sN: die of signal N; or has:STR:N: exit N if any argument contains STR, else 0; len:N:M: exit M if more than N args
#define _GNU_SOURCE
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <unistd.h>
int main(int argc, char **argv) {
	if (argc < 3) return 77;
	int isopen[64]; for (int i = 0; i < 64; ++i) isopen[i] = fcntl(i, F_GETFD) >= 0;
	int hi = 0; for (int i = 64; i < 70000 && i < (int)sysconf(_SC_OPEN_MAX); ++i) if (fcntl(i, F_GETFD) >= 0) ++hi;
	size_t cap = 4096, n = 0; for (int i = 0; i < argc; ++i) cap += strlen(argv[i]) + 32;
	char *b = malloc(cap); char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) strcpy(cwd, "?");
	struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl);
	n += sprintf(b + n, "R %zu:%s ", strlen(cwd), cwd);
	for (int i = 0; i < 64; ++i) if (isopen[i]) n += sprintf(b + n, "%d,", i);
	if (hi) n += sprintf(b + n, "+%d", hi);
	n += sprintf(b + n, " %ld %d ", (long)rl.rlim_cur, argc - 3);
	for (int i = 3; i < argc; ++i) { size_t l = strlen(argv[i]); n += sprintf(b + n, "%zu:", l); memcpy(b + n, argv[i], l); n += l; }
	b[n++] = '\n';
	if (strcmp(argv[1], "-")) {
		int fd = open(argv[1], O_WRONLY | O_CREAT | O_APPEND, 0666);
		if (fd < 0) { perror(argv[1]); return 78; }
		if (write(fd, b, n) != (ssize_t)n) return 79;
	} else if (write(1, b, n) != (ssize_t)n) return 79;
	const char *e = argv[2];
	if (*e == 's') { struct rlimit z = {0, 0}; setrlimit(RLIMIT_CORE, &z); signal(atoi(e + 1), SIG_DFL); raise(atoi(e + 1)); pause(); }
	if (!strncmp(e, "has:", 4)) {
		char *c = strdup(e + 4), *m = strrchr(c, ':'); *m++ = 0;
		for (int i = 3; i < argc; ++i) if (strstr(argv[i], c)) return atoi(m);
		return 0;
	}
	if (!strncmp(e, "len:", 4)) { int k, m; sscanf(e, "len:%d:%d", &k, &m); return argc - 3 > k ? m : 0; }
	return atoi(e);
}
