/* Maps paths: REDIRECT holds "from=to" lines. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>

static struct { char from[200], to[400]; } map[24];
static int n;

__attribute__((constructor)) static void init(void)
{
	char *s = getenv("REDIRECT"), buf[8192], *save;
	if (!s)
		return;
	snprintf(buf, sizeof buf, "%s", s);
	for (char *t = strtok_r(buf, "\n", &save); t && n < 24; t = strtok_r(NULL, "\n", &save)) {
		char *eq = strchr(t, '=');
		if (!eq)
			continue;
		*eq = 0;
		snprintf(map[n].from, sizeof map[0].from, "%s", t);
		snprintf(map[n++].to, sizeof map[0].to, "%s", eq + 1);
	}
}

__attribute__((noinline,noipa)) static const char *rd(const char *p, char *buf, size_t cap)
{
	if (!p)
		return p;
	for (int i = 0; i < n; i++) {
		size_t l = strlen(map[i].from);
		if (!strncmp(p, map[i].from, l) && (p[l] == '/' || !p[l])) {
			if (snprintf(buf, cap, "%s%s", map[i].to, p + l) < (int)cap)
				return buf;
		}
	}
	return p;
}
#define RD char buf_[4600]; const char *q = rd(p, buf_, sizeof buf_)
#define REAL(name) static __typeof__(name) *real; if (!real) real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

int execve(const char *p, char *const a[], char *const e[]) { REAL(execve); RD; return real(q, a, e); }
int stat(const char *restrict p, struct stat *restrict s) { REAL(stat); RD; return real(q, s); }
int lstat(const char *restrict p, struct stat *restrict s) { REAL(lstat); RD; return real(q, s); }
int stat64(const char *restrict p, struct stat64 *restrict s) { REAL(stat64); RD; return real(q, s); }
int lstat64(const char *restrict p, struct stat64 *restrict s) { REAL(lstat64); RD; return real(q, s); }
int fstatat(int d, const char *restrict p, struct stat *restrict s, int f) { REAL(fstatat); RD; return real(d, q, s, f); }
int fstatat64(int d, const char *restrict p, struct stat64 *restrict s, int f) { REAL(fstatat64); RD; return real(d, q, s, f); }
int statx(int d, const char *restrict p, int f, unsigned m, struct statx *restrict s) { REAL(statx); RD; return real(d, q, f, m, s); }
int access(const char *p, int m) { REAL(access); RD; return real(q, m); }
int eaccess(const char *p, int m) { REAL(eaccess); RD; return real(q, m); }
int euidaccess(const char *p, int m) { REAL(euidaccess); RD; return real(q, m); }
int faccessat(int d, const char *p, int m, int f) { REAL(faccessat); RD; return real(d, q, m, f); }
#define MODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int fl, ...) { REAL(open); RD; MODE return real(q, fl, m); }
int open64(const char *p, int fl, ...) { REAL(open64); RD; MODE return real(q, fl, m); }
int openat(int d, const char *p, int fl, ...) { REAL(openat); RD; MODE return real(d, q, fl, m); }
int chdir(const char *p) { REAL(chdir); RD; return real(q); }
ssize_t readlink(const char *restrict p, char *restrict b, size_t c) { REAL(readlink); RD; return real(q, b, c); }
