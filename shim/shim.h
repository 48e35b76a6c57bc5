// Layout shared between the libc interposer (C) and the harness (Rust).
// Keep in step with harness/pair/src/ctrl.rs.
#include <stdint.h>

enum cls {
    C_SOCKET, C_BIND, C_LISTEN, C_CHOWN, C_CHMOD, C_WAIT, C_ACCEPT, C_READ,
    C_WRITE, C_UNLINK, C_OPEN, C_STAT, C_UMASK, C_SIGACTION, C_SHUTDOWN,
    C_TTYWRITE, C_FILEREAD, C_RENAME, C_MKDIR, C_OTHER, NCLS
};

enum { EV_SYNC = 1, EV_OP = 2, EV_DONE = 3 };
enum { ACK_GO = 0, ACK_SIGINT = 1, ACK_ELAPSE = 2, ACK_SIGINT2 = 3 };
enum { F_NONE = 0, F_ERRNO = 1, F_SHORT = 2 };

struct fault { int32_t cls, nth, kind, value, hit; };
struct snap  { int32_t cls, op; uint32_t exists, uid, gid, mode; };
struct print { int32_t op, level, off, len, ret; };
struct redir { char from[64]; char to[192]; };
struct ev    { int32_t type, cls, fd, n; };

#define MAXFAULT 8
#define MAXSNAP 512
#define MAXPRINT 16384
#define MAXREDIR 8
#define PRINTBUF (1 << 20)
#define CALL_BUDGET 2000000

struct ctrl {
    volatile int32_t armed;
    int32_t  evfd;
    int32_t  op;
    uint32_t sync_mask;
    int32_t  nfault, nredir, nsnap, nprint, printlen;
    int32_t  print_mode;      // 0: succeed, 1: fail with -1, 2: fail from the second call on
    volatile int32_t handler_calls;
    int32_t  ncalls;          // interposed calls so far
    int32_t  runaway;         // call or print budget exceeded
    int32_t  counts[NCLS];
    char     sock_path[256];
    char     root[256];       // the scratch directory of the run: nothing outside it may be changed
    struct fault faults[MAXFAULT];
    struct redir redirs[MAXREDIR];
    struct snap  snaps[MAXSNAP];
    struct print prints[MAXPRINT];
    char printbuf[PRINTBUF];
};
