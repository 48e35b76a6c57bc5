//! The bindings of every architecture, described member by member.
#![allow(clippy::all)]

use crate::sig::*;

pub struct Member {
    pub name:  &'static str,
    pub set:   fn(*mut u8, u64),
    pub get:   fn(*const u8) -> u64,
    pub kind:  fn() -> String,
    pub off:   fn(*const u8) -> usize,
    pub len:   usize,
    /// Set to a recorder of the member's type; its signature.
    pub record: Option<(fn(*mut u8), fn() -> String)>,
    pub call:  Option<fn(*const u8, &[u64]) -> u64>,
}
pub struct Struct { pub name: &'static str, pub size: usize, pub align: usize, pub members: Vec<Member> }
pub struct Alias { pub name: &'static str, pub sig: fn() -> String, pub recorder: fn() -> usize }
pub struct Binding {
    pub name: &'static str,
    pub structs: Vec<Struct>,
    pub aliases: Vec<Alias>,
    pub consts: Vec<(&'static str, i64)>,
    /// Calls a function sudo provides.
    pub conv: (fn() -> String, fn(usize, &[u64]) -> u64),
    pub printf: fn(usize, &[u64]) -> u64,
    pub hooks: Vec<(&'static str, fn() -> String, fn(usize, &[u64]) -> u64)>,
}

fn size<T>(_: fn(*const u8) -> *const T) -> usize { std::mem::size_of::<T>() }
fn named<T>(_: fn(*const u8) -> *const T) -> String { kind::<T>() }

macro_rules! member {
    ($S:ty, $n:ident, $record:expr, $call:expr) => {{
        let at: fn(*const u8) -> *const _ = |p| unsafe { std::ptr::addr_of!((*p.cast::<$S>()).$n) };
        Member {
            name: stringify!($n),
            set: |p, v| unsafe { put(&mut (*p.cast::<$S>()).$n, v) },
            get: |p| unsafe { word(&(*p.cast::<$S>()).$n) },
            kind: || named(|p| unsafe { std::ptr::addr_of!((*p.cast::<$S>()).$n) }),
            off: |p| unsafe { std::ptr::addr_of!((*p.cast::<$S>()).$n) as usize - p as usize },
            len: size(at),
            record: $record,
            call: $call,
        }
    }};
}
fn set_recorder<T: Sig>(m: &mut T) { *m = T::recorder() }
fn sig_of<T: Sig>(_: fn(*const u8) -> *const T) -> String { T::sig() }

macro_rules! members {
    ($S:ty, $($k:ident $n:ident),*) => { vec![$( members!(@ $k $S, $n) ),*] };
    (@ d $S:ty, $n:ident) => { member!($S, $n, None, None) };
    (@ f $S:ty, $n:ident) => { member!($S, $n,
        Some((|p| unsafe { set_recorder(&mut (*p.cast::<$S>()).$n) }, || sig_of(|p| unsafe { std::ptr::addr_of!((*p.cast::<$S>()).$n) }))),
        Some(|p, w| unsafe { Sig::call((*p.cast::<$S>()).$n, w) })) };
}

macro_rules! strukt {
    ($b:ident, $n:ident, $($k:ident $f:ident),*) => {
        Struct { name: stringify!($n), size: std::mem::size_of::<$b::$n>(), align: std::mem::align_of::<$b::$n>(), members: members!($b::$n, $($k $f),*) }
    };
}
macro_rules! consts { ($b:ident, $($c:ident)*) => { vec![$( (stringify!($c), $b::$c as i64) ),*] }; }
macro_rules! aliases { ($b:ident, $($c:ident)*) => { vec![$( Alias { name: stringify!($c), sig: <$b::$c as Sig>::sig, recorder: || word(&<$b::$c as Sig>::recorder()) as usize } ),*] }; }

unsafe fn func<T>(p: usize) -> T { std::mem::transmute_copy(&p) }
fn second<T: Second>(_: fn(*const u8) -> *const T) -> String { <T::T as Sig>::sig() }
fn call_second<T: Second>(_: fn(*const u8) -> *const T, p: usize, w: &[u64]) -> u64 { unsafe { func::<T::T>(p).call(w) } }
macro_rules! hooks { ($b:ident, $($s:ident $f:ident),*) => { vec![$( (concat!(stringify!($s), ".", stringify!($f)),
    || second(|p| unsafe { std::ptr::addr_of!((*p.cast::<$b::$s>()).$f) }),
    |p, w| call_second(|p| unsafe { std::ptr::addr_of!((*p.cast::<$b::$s>()).$f) }, p, w)) ),*] }; }

macro_rules! binding {
    ($m:ident, $b:ident) => {
        pub fn $m() -> Binding {
            Binding {
                name: stringify!($m),
                structs: vec![
                    strukt!($b, sudo_conv_message, d msg_type, d timeout, d msg),
                    strukt!($b, sudo_conv_reply, d reply),
                    strukt!($b, sudo_conv_callback, d version, d closure, f on_suspend, f on_resume),
                    strukt!($b, sudo_hook, d hook_version, d hook_type, f hook_fn, d closure),
                    strukt!($b, sudo_plugin_event, f set, f add, f del, f pending, f fd, f setbase, f loopbreak, f free),
                    strukt!($b, policy_plugin, d type_, d version, f open, f close, f show_version, f check_policy, f list, f validate, f invalidate, f init_session, f register_hooks, f deregister_hooks, f event_alloc),
                    strukt!($b, io_plugin, d type_, d version, f open, f close, f show_version, f log_ttyin, f log_ttyout, f log_stdin, f log_stdout, f log_stderr, f register_hooks, f deregister_hooks, f change_winsize, f log_suspend, f event_alloc),
                    strukt!($b, audit_plugin, d type_, d version, f open, f close, f accept, f reject, f error, f show_version, f register_hooks, f deregister_hooks, f event_alloc),
                    strukt!($b, approval_plugin, d type_, d version, f open, f close, f check, f show_version),
                    strukt!($b, sudoers_group_plugin, d version, f init, f cleanup, f query),
                ],
                aliases: aliases!($b, sudo_hook_fn_setenv_t sudo_hook_fn_putenv_t sudo_hook_fn_getenv_t sudo_hook_fn_unsetenv_t sudo_conv_callback_fn_t sudo_plugin_ev_callback_t),
                consts: consts!($b, SUDO_API_VERSION_MAJOR SUDO_API_VERSION_MINOR SUDO_FRONT_END SUDO_CONV_PROMPT_ECHO_OFF SUDO_CONV_PROMPT_ECHO_ON
                    SUDO_CONV_ERROR_MSG SUDO_CONV_INFO_MSG SUDO_CONV_PROMPT_MASK SUDO_CONV_PROMPT_ECHO_OK SUDO_CONV_PREFER_TTY SUDO_CONV_REPL_MAX
                    SUDO_CONV_CALLBACK_VERSION_MAJOR SUDO_CONV_CALLBACK_VERSION_MINOR SUDO_HOOK_VERSION_MAJOR SUDO_HOOK_VERSION_MINOR SUDO_HOOK_RET_ERROR
                    SUDO_HOOK_RET_NEXT SUDO_HOOK_RET_STOP SUDO_HOOK_SETENV SUDO_HOOK_UNSETENV SUDO_HOOK_PUTENV SUDO_HOOK_GETENV SUDO_PLUGIN_EV_TIMEOUT
                    SUDO_PLUGIN_EV_READ SUDO_PLUGIN_EV_WRITE SUDO_PLUGIN_EV_PERSIST SUDO_PLUGIN_EV_SIGNAL SUDO_POLICY_PLUGIN SUDO_IO_PLUGIN SUDO_PLUGIN_NO_STATUS
                    SUDO_PLUGIN_WAIT_STATUS SUDO_PLUGIN_EXEC_ERROR SUDO_PLUGIN_SUDO_ERROR SUDO_AUDIT_PLUGIN SUDO_APPROVAL_PLUGIN GROUP_API_VERSION_MAJOR GROUP_API_VERSION_MINOR),
                conv: (<$b::sudo_conv_t as Sig>::sig, |p, w| unsafe { func::<$b::sudo_conv_t>(p).call(w) }),
                printf: |p, w| unsafe { func::<$b::sudo_printf_t>(p).expect("printf")(w[0] as _, w[1] as _, w[2] as libc::c_int, w[3]) as i64 as u64 },
                hooks: hooks!($b, policy_plugin register_hooks, policy_plugin deregister_hooks, io_plugin register_hooks, io_plugin deregister_hooks, audit_plugin register_hooks, audit_plugin deregister_hooks),
            }
        }
    };
}

/// As the crate was built for this machine.
mod native { pub use sudo_plugin_sys::*; }
#[allow(dead_code, non_camel_case_types, unused)]
mod aarch64_text { include!("/repo/sudo_plugin-sys/src/bindings/sudo_plugin.aarch64.rs"); }
#[allow(dead_code, non_camel_case_types, unused)]
mod x86_64_text { include!("/repo/sudo_plugin-sys/src/bindings/sudo_plugin.x86-64.rs"); }
#[allow(dead_code, non_camel_case_types, unused)]
mod x86_text { include!("/repo/sudo_plugin-sys/src/bindings/sudo_plugin.x86.rs"); }
/// As the library re-exports them.
mod library { pub use sudo_plugin::sys::*; }

binding!(built, native);
binding!(aarch64, aarch64_text);
binding!(x86_64, x86_64_text);
binding!(x86, x86_text);
binding!(reexported, library);

pub fn all() -> Vec<Binding> { vec![built(), aarch64(), x86_64(), x86(), reexported()] }
