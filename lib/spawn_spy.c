// The program that is started: reports its state to the file named by argv[1].
#include "spawn_report.h"
int main(int argc, char **argv, char **envp) {
	static char buf[65536];
	if (argc < 2) return 99;
	int n = report(buf, sizeof buf, 0);
	char l[512];
	int k = readlink("/proc/self/exe", l, sizeof l - 1);
	l[k < 0 ? 0 : k] = 0;
	n += snprintf(buf + n, sizeof buf - n, "exe=%s\n", l);
	for (int i = 0; i < argc; ++i) n += snprintf(buf + n, sizeof buf - n, "arg=%s\n", argv[i]);
	for (char **e = envp; *e; ++e) n += snprintf(buf + n, sizeof buf - n, "env=%s\n", *e);
	struct rlimit rl;
	if (getrlimit(RLIMIT_FSIZE, &rl) == 0) rl.rlim_cur = rl.rlim_max, setrlimit(RLIMIT_FSIZE, &rl);
	int fd = open(argv[1], O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
	if (fd < 0) { close(9); fd = open(argv[1], O_WRONLY | O_CREAT | O_APPEND, 0600); }
	if (write(fd, buf, n) != n) return 98;
	return 42;
}
