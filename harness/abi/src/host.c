/*
 * sudo's side of the plugin interface, as a C compiler sees it.  Compiled
 * once for each header (-include), with names prefixed by PFX.
 */
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>

#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define N(x) CAT(PFX, x)
typedef uint64_t W;

/* struct: data members (d) and callbacks (f) in the header's order */
#define S_sudo_conv_message(d, f)  d(msg_type, I) d(timeout, I) d(msg, P)
#define S_sudo_conv_reply(d, f)    d(reply, P)
#define S_sudo_conv_callback(d, f) d(version, U) d(closure, P) f(on_suspend) f(on_resume)
#define S_sudo_hook(d, f)          d(hook_version, U) d(hook_type, U) f(hook_fn) d(closure, P)
#define S_sudo_plugin_event(d, f)  f(set) f(add) f(del) f(pending) f(fd) f(setbase) f(loopbreak) f(free)
#define S_policy_plugin(d, f)      d(type, U) d(version, U) f(open) f(close) f(show_version) f(check_policy) f(list) f(validate) f(invalidate) f(init_session) f(register_hooks) f(deregister_hooks) f(event_alloc)
#define S_io_plugin(d, f)          d(type, U) d(version, U) f(open) f(close) f(show_version) f(log_ttyin) f(log_ttyout) f(log_stdin) f(log_stdout) f(log_stderr) f(register_hooks) f(deregister_hooks) f(change_winsize) f(log_suspend) f(event_alloc)
#define S_audit_plugin(d, f)       d(type, U) d(version, U) f(open) f(close) f(accept) f(reject) f(error) f(show_version) f(register_hooks) f(deregister_hooks) f(event_alloc)
#define S_approval_plugin(d, f)    d(type, U) d(version, U) f(open) f(close) f(check) f(show_version)
#define S_sudoers_group_plugin(d, f) d(version, U) f(init) f(cleanup) f(query)
#define STRUCTS(x) x(sudo_conv_message) x(sudo_conv_reply) x(sudo_conv_callback) x(sudo_hook) x(sudo_plugin_event) x(policy_plugin) x(io_plugin) x(audit_plugin) x(approval_plugin) x(sudoers_group_plugin)

struct al_help { char c; };
#define ENTRY(s) { sizeof(struct s), _Alignof(struct s) },
static const size_t sizes[][2] = { STRUCTS(ENTRY) };
size_t N(size)(int s)  { return sizes[s][0]; }
size_t N(align)(int s) { return sizes[s][1]; }

/* writes member m of structure s */
#define SET_d(n, k) if (m == i++) { p->n = (__typeof__(p->n))(v); return i; }
#define SET_f(n)    if (m == i++) { p->n = (__typeof__(p->n))(v); return i; }
#define GET_d(n, k) if (m == i++) { *v = (W)(p->n); *len = sizeof(p->n); *off = (char *)&p->n - (char *)p; return 1; }
#define GET_f(n)    if (m == i++) { *v = (W)(p->n); *len = sizeof(p->n); *off = (char *)&p->n - (char *)p; return 1; }
#define ACC(s) \
	static int set_##s(struct s *p, int m, W v) { int i = 0; S_##s(SET_d, SET_f) return 0; } \
	static int get_##s(struct s *p, int m, W *v, size_t *len, size_t *off) { int i = 0; S_##s(GET_d, GET_f) return 0; }
STRUCTS(ACC)
#define SETCASE(s) if (k-- == 0) return set_##s(p, m, v);
#define GETCASE(s) if (k-- == 0) return get_##s(p, m, v, len, off);
int N(set)(int k, void *p, int m, W v) { STRUCTS(SETCASE) return 0; }
int N(get)(int k, void *p, int m, W *v, size_t *len, size_t *off) { STRUCTS(GETCASE) return 0; }

/* ---- calls from C: w holds the arguments, e what each is after conversion to its type ---- */
#define I(i) (e[i] = (W)(int64_t)(int)w[i], (int)w[i])
#define U(i) (e[i] = (W)(unsigned)w[i], (unsigned)w[i])
#define P(i) (e[i] = w[i], (void *)(uintptr_t)w[i])
#define SIG(x) strcpy(sig, x)
#define INT(s, n, sg, ...)  if (!strcmp(what, #s "." #n)) { SIG(sg); return (W)(int64_t)((struct s *)p)->n(__VA_ARGS__); }
#define PTR(s, n, sg, ...)  if (!strcmp(what, #s "." #n)) { SIG(sg); return (W)(uintptr_t)((struct s *)p)->n(__VA_ARGS__); }
#define VOID(s, n, sg, ...) if (!strcmp(what, #s "." #n)) { SIG(sg); ((struct s *)p)->n(__VA_ARGS__); return 0; }
#define ALIAS(t, sg, ...)   if (!strcmp(what, #t)) { SIG(sg); t fn = (t)p; return (W)(int64_t)fn(__VA_ARGS__); }

W N(call)(const char *what, void *p, const W *w, W *e, char *sig)
{
	INT(sudo_conv_callback, on_suspend, "IP>I", I(0), P(1))
	INT(sudo_conv_callback, on_resume, "IP>I", I(0), P(1))
	INT(sudo_plugin_event, set, "PIIPP>I", P(0), I(1), I(2), P(3), P(4))
	INT(sudo_plugin_event, add, "PP>I", P(0), P(1))
	INT(sudo_plugin_event, del, "P>I", P(0))
	INT(sudo_plugin_event, pending, "PIP>I", P(0), I(1), P(2))
	INT(sudo_plugin_event, fd, "P>I", P(0))
	VOID(sudo_plugin_event, setbase, "PP>V", P(0), P(1))
	VOID(sudo_plugin_event, loopbreak, "P>V", P(0))
	VOID(sudo_plugin_event, free, "P>V", P(0))

	INT(policy_plugin, open, "UPPPPPPP>I", U(0), P(1), P(2), P(3), P(4), P(5), P(6), P(7))
	VOID(policy_plugin, close, "II>V", I(0), I(1))
	INT(policy_plugin, show_version, "I>I", I(0))
	INT(policy_plugin, check_policy, "IPPPPPP>I", I(0), P(1), P(2), P(3), P(4), P(5), P(6))
	INT(policy_plugin, list, "IPIPP>I", I(0), P(1), I(2), P(3), P(4))
	INT(policy_plugin, validate, "P>I", P(0))
	VOID(policy_plugin, invalidate, "I>V", I(0))
	INT(policy_plugin, init_session, "PPP>I", P(0), P(1), P(2))
	VOID(policy_plugin, register_hooks, "IP>V", I(0), P(1))
	VOID(policy_plugin, deregister_hooks, "IP>V", I(0), P(1))
	PTR(policy_plugin, event_alloc, ">P", )

	INT(io_plugin, open, "UPPPPPIPPPP>I", U(0), P(1), P(2), P(3), P(4), P(5), I(6), P(7), P(8), P(9), P(10))
	VOID(io_plugin, close, "II>V", I(0), I(1))
	INT(io_plugin, show_version, "I>I", I(0))
	INT(io_plugin, log_ttyin, "PUP>I", P(0), U(1), P(2))
	INT(io_plugin, log_ttyout, "PUP>I", P(0), U(1), P(2))
	INT(io_plugin, log_stdin, "PUP>I", P(0), U(1), P(2))
	INT(io_plugin, log_stdout, "PUP>I", P(0), U(1), P(2))
	INT(io_plugin, log_stderr, "PUP>I", P(0), U(1), P(2))
	VOID(io_plugin, register_hooks, "IP>V", I(0), P(1))
	VOID(io_plugin, deregister_hooks, "IP>V", I(0), P(1))
	INT(io_plugin, change_winsize, "UUP>I", U(0), U(1), P(2))
	INT(io_plugin, log_suspend, "IP>I", I(0), P(1))
	PTR(io_plugin, event_alloc, ">P", )

	INT(audit_plugin, open, "UPPPPIPPPP>I", U(0), P(1), P(2), P(3), P(4), I(5), P(6), P(7), P(8), P(9))
	VOID(audit_plugin, close, "II>V", I(0), I(1))
	INT(audit_plugin, accept, "PUPPPP>I", P(0), U(1), P(2), P(3), P(4), P(5))
	INT(audit_plugin, reject, "PUPPP>I", P(0), U(1), P(2), P(3), P(4))
	INT(audit_plugin, error, "PUPPP>I", P(0), U(1), P(2), P(3), P(4))
	INT(audit_plugin, show_version, "I>I", I(0))
	VOID(audit_plugin, register_hooks, "IP>V", I(0), P(1))
	VOID(audit_plugin, deregister_hooks, "IP>V", I(0), P(1))
	PTR(audit_plugin, event_alloc, ">P", )

	INT(approval_plugin, open, "UPPPPIPPPP>I", U(0), P(1), P(2), P(3), P(4), I(5), P(6), P(7), P(8), P(9))
	VOID(approval_plugin, close, ">V", )
	INT(approval_plugin, check, "PPPP>I", P(0), P(1), P(2), P(3))
	INT(approval_plugin, show_version, "I>I", I(0))

	INT(sudoers_group_plugin, init, "IPP>I", I(0), P(1), P(2))
	VOID(sudoers_group_plugin, cleanup, ">V", )
	INT(sudoers_group_plugin, query, "PPP>I", P(0), P(1), P(2))

	ALIAS(sudo_hook_fn_setenv_t, "PPIP>I", P(0), P(1), I(2), P(3))
	ALIAS(sudo_hook_fn_putenv_t, "PP>I", P(0), P(1))
	ALIAS(sudo_hook_fn_getenv_t, "PPP>I", P(0), P(1), P(2))
	ALIAS(sudo_hook_fn_unsetenv_t, "PP>I", P(0), P(1))
	ALIAS(sudo_conv_callback_fn_t, "IP>I", I(0), P(1))
	if (!strcmp(what, "sudo_plugin_ev_callback_t")) { SIG("IIP>V"); ((sudo_plugin_ev_callback_t)p)(I(0), I(1), P(2)); return 0; }
	SIG("?");
	return 0;
}

/* ---- what sudo provides: recorders called by the plugin ---- */
W N(seen)[8];
W N(ret);
#define seen N(seen)
#define SEE1(a) (memset(seen, 0, sizeof(seen)), seen[0] = (W)(a))
#define SEE2(a, b) (SEE1(a), seen[1] = (W)(b))
#define SEE3(a, b, c) (SEE2(a, b), seen[2] = (W)(c))
#define SEE4(a, b, c, d) (SEE3(a, b, c), seen[3] = (W)(d))
#define SEE5(a, b, c, d, f) (SEE4(a, b, c, d), seen[4] = (W)(f))
static int h_conv(int n, const struct sudo_conv_message m[], struct sudo_conv_reply r[], struct sudo_conv_callback *c) { SEE4(n, m, r, c); return (int)N(ret); }
static int h_printf(int t, const char *f, ...) { va_list ap; va_start(ap, f); int a = va_arg(ap, int); void *b = va_arg(ap, void *); va_end(ap); SEE4(t, f, a, b); return (int)N(ret); }
static int h_set(struct sudo_plugin_event *e, int fd, int ev, sudo_plugin_ev_callback_t cb, void *c) { SEE5(e, fd, ev, cb, c); return (int)N(ret); }
static int h_add(struct sudo_plugin_event *e, struct timespec *t) { SEE2(e, t); return (int)N(ret); }
static int h_del(struct sudo_plugin_event *e) { SEE1(e); return (int)N(ret); }
static int h_pending(struct sudo_plugin_event *e, int ev, struct timespec *t) { SEE3(e, ev, t); return (int)N(ret); }
static int h_fd(struct sudo_plugin_event *e) { SEE1(e); return (int)N(ret); }
static void h_setbase(struct sudo_plugin_event *e, void *b) { SEE2(e, b); }
static void h_loopbreak(struct sudo_plugin_event *e) { SEE1(e); }
static void h_free(struct sudo_plugin_event *e) { SEE1(e); }
static int h_hook(struct sudo_hook *h) { SEE1(h); return (int)N(ret); }
static int h_suspend(int s, void *c) { SEE2(s, c); return (int)N(ret); }

void *N(provided)(const char *what)
{
	static struct sudo_plugin_event ev = { h_set, h_add, h_del, h_pending, h_fd, h_setbase, h_loopbreak, h_free };
	static struct sudo_conv_callback cb = { 0, 0, h_suspend, h_suspend };
	sudo_conv_t conv = h_conv;
	sudo_printf_t pr = h_printf;
	if (!strcmp(what, "sudo_conv_t")) return (void *)conv;
	if (!strcmp(what, "sudo_printf_t")) return (void *)pr;
	if (!strcmp(what, "sudo_plugin_event")) return &ev;
	if (!strcmp(what, "sudo_conv_callback")) return &cb;
	if (!strcmp(what, "register_hook")) return (void *)h_hook;
	return 0;
}

/* ---- constants ---- */
#define CONSTS(x) x(SUDO_API_VERSION_MAJOR) x(SUDO_API_VERSION_MINOR) x(SUDO_FRONT_END) x(SUDO_CONV_PROMPT_ECHO_OFF) x(SUDO_CONV_PROMPT_ECHO_ON) \
	x(SUDO_CONV_ERROR_MSG) x(SUDO_CONV_INFO_MSG) x(SUDO_CONV_PROMPT_MASK) x(SUDO_CONV_PROMPT_ECHO_OK) x(SUDO_CONV_PREFER_TTY) x(SUDO_CONV_REPL_MAX) \
	x(SUDO_CONV_CALLBACK_VERSION_MAJOR) x(SUDO_CONV_CALLBACK_VERSION_MINOR) x(SUDO_HOOK_VERSION_MAJOR) x(SUDO_HOOK_VERSION_MINOR) x(SUDO_HOOK_RET_ERROR) \
	x(SUDO_HOOK_RET_NEXT) x(SUDO_HOOK_RET_STOP) x(SUDO_HOOK_SETENV) x(SUDO_HOOK_UNSETENV) x(SUDO_HOOK_PUTENV) x(SUDO_HOOK_GETENV) x(SUDO_PLUGIN_EV_TIMEOUT) \
	x(SUDO_PLUGIN_EV_READ) x(SUDO_PLUGIN_EV_WRITE) x(SUDO_PLUGIN_EV_PERSIST) x(SUDO_PLUGIN_EV_SIGNAL) x(SUDO_POLICY_PLUGIN) x(SUDO_IO_PLUGIN) x(SUDO_PLUGIN_NO_STATUS) \
	x(SUDO_PLUGIN_WAIT_STATUS) x(SUDO_PLUGIN_EXEC_ERROR) x(SUDO_PLUGIN_SUDO_ERROR) x(SUDO_AUDIT_PLUGIN) x(SUDO_APPROVAL_PLUGIN) x(GROUP_API_VERSION_MAJOR) x(GROUP_API_VERSION_MINOR) x(SUDO_API_VERSION)
#define CON(c) if (!strcmp(n, #c)) return (int64_t)(c);
int64_t N(konst)(const char *n) { CONSTS(CON) return INT64_MIN; }
unsigned N(mkversion)(unsigned a, unsigned b) { return SUDO_API_MKVERSION(a, b); }
unsigned N(major)(unsigned v) { return SUDO_API_VERSION_GET_MAJOR(v); }
unsigned N(minor)(unsigned v) { return SUDO_API_VERSION_GET_MINOR(v); }
