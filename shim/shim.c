// libc interposer used by the checks (LD_PRELOAD).
//
// Disarmed it is transparent. Armed (one forked "sudo" process per case) it
//  * reports blocking calls to the harness and waits for its go-ahead,
//  * delivers SIGINT inside a blocking call, with the kernel's restart rules,
//  * makes chosen calls fail or transfer less than asked,
//  * records owner and mode of the approval socket at every call, and
//  * maps the plugin's default paths into the case's scratch directory.
// With SHIM_REDIRECT=from=to[:from=to] in the environment it only maps paths
// (used to run the approval script).
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <unistd.h>
#include "shim.h"

static struct ctrl *G;
static struct redir ENVR[MAXREDIR];
static int NENVR;

void shim_attach(struct ctrl *c) { G = c; }

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); \
    if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

static inline int armed(void) { return G && G->armed; }

__attribute__((constructor)) static void init(void) {
    const char *s = getenv("SHIM_REDIRECT");
    if (!s) return;
    char buf[1024];
    snprintf(buf, sizeof buf, "%s", s);
    for (char *save, *t = strtok_r(buf, ":", &save); t && NENVR < MAXREDIR; t = strtok_r(NULL, ":", &save)) {
        char *eq = strchr(t, '=');
        if (!eq) continue;
        *eq = 0;
        snprintf(ENVR[NENVR].from, sizeof ENVR[0].from, "%s", t);
        snprintf(ENVR[NENVR].to, sizeof ENVR[0].to, "%s", eq + 1);
        NENVR++;
    }
}

static const char *rd1(struct redir *r, int n, const char *p, char *buf, size_t cap) {
    for (int i = 0; i < n; i++) {
        size_t l = strlen(r[i].from);
        if (!strncmp(p, r[i].from, l) && (p[l] == '/' || p[l] == 0)) {
            if (snprintf(buf, cap, "%s%s", r[i].to, p + l) >= (int)cap) return p;
            return buf;
        }
    }
    return p;
}
__attribute__((noinline,noipa)) static const char *rd(const char *p, char *buf, size_t cap) {
    if (!p) return p;
    if (armed() && G->nredir) return rd1(G->redirs, G->nredir, p, buf, cap);
    if (NENVR) return rd1(ENVR, NENVR, p, buf, cap);
    return p;
}
// callers probe statx() with a null path; the header promises the compiler
// it is not, so the test is kept out of line
__attribute__((noinline,noipa)) static int named(const char *p) { return p && *p; }
#define RD(p) char rdbuf_[4600]; const char *rp = rd(p, rdbuf_, sizeof rdbuf_)

// Nothing outside the case's scratch directory is created, renamed, removed or
// given another owner or mode, whatever path the code under test comes up with.
static int keep(int dir, const char *p) {
    char path[4700], buf[PATH_MAX], *slash;
    int e = errno, ok = 0;
    if (!p || !armed() || !G->root[0]) return 0;
    if (*p == '/' || dir == AT_FDCWD) snprintf(path, sizeof path, "%s", p);
    else snprintf(path, sizeof path, "/proc/self/fd/%d/%s", dir, p);
    slash = strrchr(path, '/');
    if (slash) slash[slash == path] = 0; else strcpy(path, ".");
    size_t l = strlen(G->root);
    if (realpath(path, buf)) ok = !strncmp(buf, G->root, l) && (buf[l] == '/' || buf[l] == 0);
    else ok = errno == ENOENT || errno == ENOTDIR || errno == ELOOP || errno == ENAMETOOLONG;   // the call fails by itself
    errno = ok ? e : EPERM;
    return !ok;
}
#define KEEP(dir, p) do { if (keep(dir, p)) return -1; } while (0)

static void runaway(void) { G->runaway = 1; syscall(SYS_exit_group, 77); }

// record the socket's owner and mode if they changed
void shim_snap(int cls) {
    struct stat st;
    struct snap s = { cls, G->op, 0, 0, 0, 0 };
    int e = errno;
    if (!G->sock_path[0]) return;
    if (syscall(SYS_newfstatat, AT_FDCWD, G->sock_path, &st, AT_SYMLINK_NOFOLLOW) == 0)
        s.exists = 1, s.uid = st.st_uid, s.gid = st.st_gid, s.mode = st.st_mode;
    errno = e;
    if (G->nsnap) {
        struct snap *l = &G->snaps[G->nsnap - 1];
        if (l->exists == s.exists && l->uid == s.uid && l->gid == s.gid && l->mode == s.mode && cls != C_ACCEPT && cls != C_WAIT) return;
    }
    if (G->nsnap < MAXSNAP) G->snaps[G->nsnap++] = s;
}

static int xsend(int type, int cls, int fd, int n) {
    struct ev e = { type, cls, fd, n };
    unsigned char ack = 0;
    int saved = errno;
    while (syscall(SYS_write, G->evfd, &e, sizeof e) < 0 && errno == EINTR) ;
    long r;
    while ((r = syscall(SYS_read, G->evfd, &ack, 1)) < 0 && errno == EINTR) ;
    if (r <= 0) syscall(SYS_exit_group, 78);
    errno = saved;
    return ack;
}
int shim_sync(int type, int cls, int n) { return xsend(type, cls, -1, n); }

// Entry of an interposed call. Returns 0 to go on, 1 to fail with errno set,
// 2 to truncate the transfer to *cap bytes.
static int enter(int cls, int *cap) {
    if (++G->ncalls > CALL_BUDGET) runaway();
    shim_snap(cls);
    int n = G->counts[cls]++;
    for (int i = 0; i < G->nfault; i++) {
        struct fault *f = &G->faults[i];
        if (f->cls == cls && (f->nth == n || f->nth == -1 || (f->nth < -1 && n >= -f->nth - 2))) {
            f->hit++;
            if (f->kind == F_ERRNO) { errno = f->value; return 1; }
            if (f->kind == F_SHORT && cap) { *cap = f->value; return 2; }
        }
    }
    return 0;
}
#define ENTER(cls) do { if (armed() && enter(cls, NULL) == 1) return -1; } while (0)

static int restarts(void) {
    struct sigaction sa;
    REAL(int, sigaction, int, const struct sigaction *, struct sigaction *);
    real(SIGINT, NULL, &sa);
    return (sa.sa_flags & SA_RESTART) != 0;
}

// Whether a call on fd would not wait for ever: non-blocking, or a time limit
// set on the socket.
static int impatient(int fd, int opt) {
    struct timeval tv = { 0, 0 };
    socklen_t l = sizeof tv;
    int e = errno;
    int fl = syscall(SYS_fcntl, fd, F_GETFL);
    int r = fl >= 0 && (fl & O_NONBLOCK);
    if (!r && getsockopt(fd, SOL_SOCKET, opt, &tv, &l) == 0) r = tv.tv_sec || tv.tv_usec;
    errno = e;
    return r;
}

// Tell the harness about a call that may block. If it asks for SIGINT inside
// the call, deliver it atomically: 1 means the call must return EINTR. If it
// lets time pass, a call with a time limit gives up: 2.
static int block_point(int cls, int fd, int restartable, int limited) {
    int a;
    if (!(G->sync_mask & (1u << cls))) return 0;
    while ((a = xsend(EV_SYNC, cls, fd, G->counts[cls] - 1)) != ACK_GO) {
        if (a == ACK_ELAPSE) {
            struct itimerval it, off = { { 0, 0 }, { 0, 0 } };
            if (limited) return 2;
            if (getitimer(ITIMER_REAL, &it) == 0 && (it.it_value.tv_sec || it.it_value.tv_usec)) {
                setitimer(ITIMER_REAL, &off, NULL);
                syscall(SYS_kill, syscall(SYS_getpid), SIGALRM);
                errno = EINTR;
                return 1;
            }
            continue;
        }
        sigset_t blk, orig;
        sigemptyset(&blk); sigaddset(&blk, SIGINT);
        syscall(SYS_rt_sigprocmask, SIG_BLOCK, &blk, &orig, 8);
        int rs = restarts();
        if (a == ACK_SIGINT2) {
            struct timespec n = { 0, 0 };
            syscall(SYS_kill, syscall(SYS_getpid), SIGINT);
            syscall(SYS_ppoll, NULL, 0, &n, &orig, 8);
        }
        syscall(SYS_kill, syscall(SYS_getpid), SIGINT);
        struct pollfd p = { fd, POLLIN, 0 };
        struct timespec z = { 0, 0 };
        long r = syscall(SYS_ppoll, &p, 1, &z, &orig, 8);
        int e = errno;
        syscall(SYS_rt_sigprocmask, SIG_SETMASK, &orig, NULL, 8);
        if (r < 0 && e == EINTR && !(restartable && rs)) { errno = EINTR; return 1; }
        // restarted by the kernel (or the signal is blocked): still waiting
    }
    return 0;
}

enum { K_OTHER, K_CONN, K_LISTEN, K_FILE };
static int kind(int fd) {
    int e = errno, v; socklen_t l = sizeof v;
    int k = K_FILE;
    if (getsockopt(fd, SOL_SOCKET, SO_DOMAIN, &v, &l) == 0) {
        k = K_OTHER;
        if (v == AF_UNIX) {
            l = sizeof v;
            getsockopt(fd, SOL_SOCKET, SO_TYPE, &v, &l);
            if (v == SOCK_STREAM || v == SOCK_SEQPACKET) {
                l = sizeof v;
                getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &v, &l);
                k = v ? K_LISTEN : K_CONN;
            }
        }
    }
    errno = e;
    return k;
}

// ---- socket set-up ----
int socket(int d, int t, int p) {
    REAL(int, socket, int, int, int);
    if (armed() && d == AF_UNIX && (t & 0xf) == SOCK_STREAM) ENTER(C_SOCKET);
    return real(d, t, p);
}
int bind(int fd, const struct sockaddr *a, socklen_t l) {
    REAL(int, bind, int, const struct sockaddr *, socklen_t);
    if (armed() && a && a->sa_family == AF_UNIX) {
        ENTER(C_BIND);
        struct sockaddr_un u;
        memset(&u, 0, sizeof u);
        memcpy(&u, a, l < sizeof u ? l : sizeof u);
        char path[sizeof u.sun_path + 1];
        size_t n = l > offsetof(struct sockaddr_un, sun_path) ? l - offsetof(struct sockaddr_un, sun_path) : 0;
        if (n > sizeof u.sun_path) n = sizeof u.sun_path;
        memcpy(path, u.sun_path, n); path[n] = 0;
        RD(path);
        if (path[0]) KEEP(AT_FDCWD, rp);
        if (rp != path && strlen(rp) < sizeof u.sun_path) {
            memset(u.sun_path, 0, sizeof u.sun_path);
            strcpy(u.sun_path, rp);
            return real(fd, (struct sockaddr *)&u, offsetof(struct sockaddr_un, sun_path) + strlen(rp) + 1);
        }
    }
    return real(fd, a, l);
}
int connect(int fd, const struct sockaddr *a, socklen_t l) {
    REAL(int, connect, int, const struct sockaddr *, socklen_t);
    if (armed() && a && a->sa_family == AF_UNIX && l > offsetof(struct sockaddr_un, sun_path)) {
        struct sockaddr_un u;
        memset(&u, 0, sizeof u);
        memcpy(&u, a, l < sizeof u ? l : sizeof u);
        char path[sizeof u.sun_path + 1];
        memcpy(path, u.sun_path, sizeof u.sun_path); path[sizeof u.sun_path] = 0;
        RD(path);
        if (rp != path && strlen(rp) < sizeof u.sun_path) {
            memset(u.sun_path, 0, sizeof u.sun_path);
            strcpy(u.sun_path, rp);
            return real(fd, (struct sockaddr *)&u, offsetof(struct sockaddr_un, sun_path) + strlen(rp) + 1);
        }
    }
    return real(fd, a, l);
}
int listen(int fd, int n) {
    REAL(int, listen, int, int);
    ENTER(C_LISTEN);
    return real(fd, n);
}
int shutdown(int fd, int how) {
    REAL(int, shutdown, int, int);
    ENTER(C_SHUTDOWN);
    return real(fd, how);
}
int chown(const char *p, uid_t u, gid_t g) { REAL(int, chown, const char *, uid_t, gid_t); RD(p); ENTER(C_CHOWN); KEEP(AT_FDCWD, rp); return real(rp, u, g); }
int lchown(const char *p, uid_t u, gid_t g) { REAL(int, lchown, const char *, uid_t, gid_t); RD(p); ENTER(C_CHOWN); KEEP(AT_FDCWD, rp); return real(rp, u, g); }
int fchown(int fd, uid_t u, gid_t g) { REAL(int, fchown, int, uid_t, gid_t); ENTER(C_CHOWN); return real(fd, u, g); }
int fchownat(int d, const char *p, uid_t u, gid_t g, int f) { REAL(int, fchownat, int, const char *, uid_t, gid_t, int); RD(p); ENTER(C_CHOWN); KEEP(d, rp); return real(d, rp, u, g, f); }
int chmod(const char *p, mode_t m) { REAL(int, chmod, const char *, mode_t); RD(p); ENTER(C_CHMOD); KEEP(AT_FDCWD, rp); return real(rp, m); }
int fchmod(int fd, mode_t m) { REAL(int, fchmod, int, mode_t); ENTER(C_CHMOD); return real(fd, m); }
int fchmodat(int d, const char *p, mode_t m, int f) { REAL(int, fchmodat, int, const char *, mode_t, int); RD(p); ENTER(C_CHMOD); KEEP(d, rp); return real(d, rp, m, f); }
mode_t umask(mode_t m) { REAL(mode_t, umask, mode_t); if (armed()) enter(C_UMASK, NULL); return real(m); }

// ---- waiting ----
static int wait_enter(int fd, int limited) {
    if (enter(C_WAIT, NULL) == 1) return 1;
    return block_point(C_WAIT, fd, 0, limited);
}
#define WAIT(fd, limited, gaveup) do { int w_ = wait_enter(fd, limited); if (w_ == 1) return -1; if (w_ == 2) { gaveup; return 0; } } while (0)
static void nobody(fd_set *r, fd_set *w, fd_set *x) { if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (x) FD_ZERO(x); }
static void none(struct pollfd *p, nfds_t n) { for (nfds_t i = 0; i < n; i++) p[i].revents = 0; }
int select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *t) {
    REAL(int, select, int, fd_set *, fd_set *, fd_set *, struct timeval *);
    if (armed() && r && n > 0) {
        for (int fd = n - 1; fd >= 0; fd--)
            if ((((unsigned char *)r)[fd / 8] >> (fd % 8)) & 1) {
                int k = kind(fd);
                if (k == K_LISTEN || k == K_CONN) { WAIT(fd, t != NULL, nobody(r, w, x)); break; }
            }
    }
    return real(n, r, w, x, t);
}
int pselect(int n, fd_set *r, fd_set *w, fd_set *x, const struct timespec *t, const sigset_t *m) {
    REAL(int, pselect, int, fd_set *, fd_set *, fd_set *, const struct timespec *, const sigset_t *);
    if (armed() && r && n > 0) {
        for (int fd = n - 1; fd >= 0; fd--)
            if ((((unsigned char *)r)[fd / 8] >> (fd % 8)) & 1) { WAIT(fd, t != NULL, nobody(r, w, x)); break; }
    }
    return real(n, r, w, x, t, m);
}
int poll(struct pollfd *p, nfds_t n, int t) {
    REAL(int, poll, struct pollfd *, nfds_t, int);
    if (armed()) {
        for (nfds_t i = 0; i < n; i++) {
            int k = kind(p[i].fd);
            if (k == K_LISTEN || k == K_CONN) { WAIT(p[i].fd, t >= 0, none(p, n)); break; }
        }
    }
    return real(p, n, t);
}
int ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *m) {
    REAL(int, ppoll, struct pollfd *, nfds_t, const struct timespec *, const sigset_t *);
    if (armed()) {
        for (nfds_t i = 0; i < n; i++) {
            int k = kind(p[i].fd);
            if (k == K_LISTEN || k == K_CONN) { WAIT(p[i].fd, t != NULL, none(p, n)); break; }
        }
    }
    return real(p, n, t, m);
}
#define BLOCK(cls, fd, dont) do { int b_ = block_point(cls, fd, 1, (dont) || impatient(fd, SO_RCVTIMEO)); if (b_ == 2) errno = EAGAIN; if (b_) return -1; } while (0)
int accept(int fd, struct sockaddr *a, socklen_t *l) {
    REAL(int, accept, int, struct sockaddr *, socklen_t *);
    if (armed()) { ENTER(C_ACCEPT); BLOCK(C_ACCEPT, fd, 0); }
    return real(fd, a, l);
}
int accept4(int fd, struct sockaddr *a, socklen_t *l, int f) {
    REAL(int, accept4, int, struct sockaddr *, socklen_t *, int);
    if (armed()) { ENTER(C_ACCEPT); BLOCK(C_ACCEPT, fd, 0); }
    return real(fd, a, l, f);
}

// ---- reads ----
static int read_enter(int fd, size_t *n) {
    int k = kind(fd), cap = 0, r;
    if (k == K_CONN) {
        r = enter(C_READ, &cap);
        if (r == 1) return 1;
        if (r == 2 && (size_t)cap < *n) *n = cap;
        BLOCK(C_READ, fd, 0);
        return 0;
    }
    if (k == K_FILE) {
        r = enter(C_FILEREAD, &cap);
        if (r == 1) return 1;
        if (r == 2 && (size_t)cap < *n) *n = cap;
    }
    return 0;
}
ssize_t read(int fd, void *b, size_t n) { REAL(ssize_t, read, int, void *, size_t); if (armed() && read_enter(fd, &n)) return -1; return real(fd, b, n); }
ssize_t recv(int fd, void *b, size_t n, int f) {
    REAL(ssize_t, recv, int, void *, size_t, int);
    if (armed() && !(f & MSG_DONTWAIT) && read_enter(fd, &n)) return -1;
    return real(fd, b, n, f);
}
ssize_t recvfrom(int fd, void *b, size_t n, int f, struct sockaddr *a, socklen_t *l) {
    REAL(ssize_t, recvfrom, int, void *, size_t, int, struct sockaddr *, socklen_t *);
    if (armed() && !(f & MSG_DONTWAIT) && read_enter(fd, &n)) return -1;
    return real(fd, b, n, f, a, l);
}
ssize_t recvmsg(int fd, struct msghdr *m, int f) {
    REAL(ssize_t, recvmsg, int, struct msghdr *, int);
    size_t n = SIZE_MAX;
    if (armed() && !(f & MSG_DONTWAIT) && read_enter(fd, &n)) return -1;
    return real(fd, m, f);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, readv, int, const struct iovec *, int);
    size_t n = SIZE_MAX;
    if (armed() && read_enter(fd, &n)) return -1;
    return real(fd, v, c);
}

// ---- writes ----
static int write_enter(int fd, size_t *n, int dont) {
    int k = kind(fd), cap = 0, r;
    if (fd < 3) return 0;
    if (k == K_CONN) {
        r = enter(C_WRITE, &cap);
        // a pair that does not read for a while: only a write that would not
        // wait for it fails
        if (r != 1 && (G->sync_mask & (1u << C_WRITE)) && xsend(EV_SYNC, C_WRITE, fd, G->counts[C_WRITE] - 1) == ACK_ELAPSE && (dont || impatient(fd, SO_SNDTIMEO))) { errno = EAGAIN; return 1; }
    } else if (k == K_FILE) r = enter(C_TTYWRITE, &cap);
    else return 0;
    if (r == 1) return 1;
    if (r == 2 && (size_t)cap < *n) *n = cap;
    return 0;
}
ssize_t write(int fd, const void *b, size_t n) { REAL(ssize_t, write, int, const void *, size_t); if (armed() && write_enter(fd, &n, 0)) return -1; return real(fd, b, n); }
ssize_t send(int fd, const void *b, size_t n, int f) { REAL(ssize_t, send, int, const void *, size_t, int); if (armed() && write_enter(fd, &n, f & MSG_DONTWAIT)) return -1; return real(fd, b, n, f); }
ssize_t sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l) {
    REAL(ssize_t, sendto, int, const void *, size_t, int, const struct sockaddr *, socklen_t);
    if (armed() && write_enter(fd, &n, f & MSG_DONTWAIT)) return -1;
    return real(fd, b, n, f, a, l);
}
ssize_t sendmsg(int fd, const struct msghdr *m, int f) {
    REAL(ssize_t, sendmsg, int, const struct msghdr *, int);
    size_t n = SIZE_MAX;
    if (armed() && write_enter(fd, &n, f & MSG_DONTWAIT)) return -1;
    return real(fd, m, f);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    size_t n = 0;
    for (int i = 0; i < c; i++) n += v[i].iov_len;
    size_t want = n;
    if (armed() && write_enter(fd, &n, 0)) return -1;
    if (n < want) {           // short write: send only a prefix
        struct iovec one = v[0];
        for (int i = 0; i < c; i++) if (v[i].iov_len) { one = v[i]; break; }
        if (one.iov_len > n) one.iov_len = n;
        return real(fd, &one, 1);
    }
    return real(fd, v, c);
}

// ---- files ----
static int open_any(const char *name, int dir, const char *p, int fl, mode_t m, int at) {
    static int (*rat)(int, const char *, int, ...);
    if (!rat) rat = dlsym(RTLD_NEXT, "openat");
    (void)name; (void)at;
    RD(p);
    ENTER(C_OPEN);
    if (fl & (O_CREAT | O_TRUNC)) KEEP(dir, rp);
    return rat(dir, rp, fl, m);
}
#define OPENARGS mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int fl, ...) { OPENARGS return open_any("open", AT_FDCWD, p, fl, m, 0); }
int open64(const char *p, int fl, ...) { OPENARGS return open_any("open64", AT_FDCWD, p, fl | O_LARGEFILE, m, 0); }
int openat(int d, const char *p, int fl, ...) { OPENARGS return open_any("openat", d, p, fl, m, 1); }
int openat64(int d, const char *p, int fl, ...) { OPENARGS return open_any("openat64", d, p, fl | O_LARGEFILE, m, 1); }

int unlink(const char *p) { REAL(int, unlink, const char *); RD(p); ENTER(C_UNLINK); KEEP(AT_FDCWD, rp); return real(rp); }
int unlinkat(int d, const char *p, int f) { REAL(int, unlinkat, int, const char *, int); RD(p); ENTER(C_UNLINK); KEEP(d, rp); return real(d, rp, f); }
int remove(const char *p) { REAL(int, remove, const char *); RD(p); ENTER(C_UNLINK); KEEP(AT_FDCWD, rp); return real(rp); }
int rename(const char *p, const char *q) { REAL(int, rename, const char *, const char *); RD(p); char b2[4600]; const char *rq = rd(q, b2, sizeof b2); ENTER(C_RENAME); KEEP(AT_FDCWD, rp); KEEP(AT_FDCWD, rq); return real(rp, rq); }
int mkdir(const char *p, mode_t m) { REAL(int, mkdir, const char *, mode_t); RD(p); ENTER(C_MKDIR); KEEP(AT_FDCWD, rp); return real(rp, m); }
int stat(const char *restrict p, struct stat *restrict s) { REAL(int, stat, const char *, struct stat *); RD(p); ENTER(C_STAT); return real(rp, s); }
int stat64(const char *restrict p, struct stat64 *restrict s) { REAL(int, stat64, const char *, struct stat64 *); RD(p); ENTER(C_STAT); return real(rp, s); }
int lstat(const char *restrict p, struct stat *restrict s) { REAL(int, lstat, const char *, struct stat *); RD(p); ENTER(C_STAT); return real(rp, s); }
int lstat64(const char *restrict p, struct stat64 *restrict s) { REAL(int, lstat64, const char *, struct stat64 *); RD(p); ENTER(C_STAT); return real(rp, s); }
int fstatat(int d, const char *restrict p, struct stat *restrict s, int f) { REAL(int, fstatat, int, const char *, struct stat *, int); RD(p); if (named(p)) ENTER(C_STAT); return real(d, rp, s, f); }
int fstatat64(int d, const char *restrict p, struct stat64 *restrict s, int f) { REAL(int, fstatat64, int, const char *, struct stat64 *, int); RD(p); if (named(p)) ENTER(C_STAT); return real(d, rp, s, f); }
int statx(int d, const char *restrict p, int f, unsigned m, struct statx *restrict s) {
    REAL(int, statx, int, const char *, int, unsigned, struct statx *);
    RD(p);
    if (named(p)) ENTER(C_STAT);
    return real(d, rp, f, m, s);
}
int access(const char *p, int m) { REAL(int, access, const char *, int); RD(p); return real(rp, m); }
int eaccess(const char *p, int m) { REAL(int, eaccess, const char *, int); RD(p); return real(rp, m); }
int euidaccess(const char *p, int m) { REAL(int, euidaccess, const char *, int); RD(p); return real(rp, m); }
int faccessat(int d, const char *p, int m, int f) { REAL(int, faccessat, int, const char *, int, int); RD(p); return real(d, rp, m, f); }

// ---- signals: count only ----
int sigaction(int s, const struct sigaction *n, struct sigaction *o) {
    REAL(int, sigaction, int, const struct sigaction *, struct sigaction *);
    if (armed()) ENTER(C_SIGACTION);
    return real(s, n, o);
}

// ---- sudo's printf ----
static int record(int level, const char *fmt, va_list ap) {
    if (G->nprint >= MAXPRINT) runaway();
    struct print *r = &G->prints[G->nprint];
    char *dst = G->printbuf + G->printlen;
    size_t room = PRINTBUF - G->printlen;
    int was = G->armed;
    G->armed = 0;
    int n = vsnprintf(dst, room, fmt, ap);
    G->armed = was;
    int fail = G->print_mode == 1 || (G->print_mode == 2 && G->nprint >= 1);
    if (n < 0) n = 0;
    if ((size_t)n >= room) runaway();
    r->op = G->op; r->level = level; r->off = G->printlen; r->len = n; r->ret = fail ? -1 : n;
    G->nprint++;
    G->printlen += n;
    if (fail) { errno = EIO; return -1; }
    return n;
}
int shim_printf(int level, const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    int n = record(level, fmt, ap);
    va_end(ap);
    return n;
}
int shim_conversation(int n, const void *m, void *r, void *c) { (void)n; (void)m; (void)r; (void)c; G->runaway |= 2; return -1; }
