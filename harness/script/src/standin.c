/*
 * Stands in for the commands the script runs: appends its argv to ../record
 * (next to its directory) in one write, then behaves as its name suggests.
 */
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

int main(int argc, char **argv)
{
	static char buf[1 << 18];
	char exe[4096];
	size_t n = 0;
	char *name = strrchr(argv[0], '/');
	name = name ? name + 1 : argv[0];
	ssize_t l = readlink("/proc/self/exe", exe, sizeof exe - 10);
	if (l < 0) return 9;
	exe[l] = 0;
	*strrchr(exe, '/') = 0;
	strcpy(strrchr(exe, '/'), "/record");
	n += snprintf(buf, sizeof buf, "%d", argc) + 1;
	for (int i = 0; i < argc; i++) {
		const char *a = i ? argv[i] : name;
		size_t k = strlen(a) + 1;
		if (n + k > sizeof buf) return 9;
		memcpy(buf + n, a, k);
		n += k;
	}
	int fd = open(exe, O_WRONLY | O_APPEND);
	if (fd < 0 || write(fd, buf, n) != (ssize_t)n) return 9;
	if (!strcmp(name, "stty") && argc == 2 && !strcmp(argv[1], "-g")) puts("500:5:bf:8a3b");
	if (!strcmp(name, "socat") || !strcmp(name, "sudo")) { const char *s = getenv("STANDIN_STATUS"); return s ? atoi(s) : 0; }
	return 0;
}
