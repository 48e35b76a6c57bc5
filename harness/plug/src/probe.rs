//! Plugins written against the public API, whose behaviour is scripted and
//! whose every activation is recorded.

use serde::{Deserialize, Serialize};
use std::fmt;
use sudo_plugin::prelude::*;
use vcore::B;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum OS { Ok, Disable, Deny, Usage }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum LS { Ok, Deny, Disable }

impl OS { pub fn code(self) -> i32 { match self { OS::Ok => 1, OS::Disable => 0, OS::Deny => -1, OS::Usage => -2 } } }
impl LS { pub fn code(self) -> i32 { match self { LS::Ok => 1, LS::Deny => 0, LS::Disable => -1 } } }

/// An error as the plugin's author may define one.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Er { pub texts: Vec<String>, pub open: OS, pub log: LS, pub panics: Option<At> }

/// Where the error's own code panics.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum At { Display, Source, Open, Log }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Payload { Str, Empty, String, Int, Struct, Unwrap, Index, Arith, Resume }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Do { Ok, Err(Er), Panic(Payload) }

#[derive(Clone, Debug, PartialEq)]
pub enum Event {
    Open(String),
    Log(u8, Vec<u8>),
    Win(u64, u64),
    Version(bool),
    Close(i32, i32),
    Drop,
    /// The environment is no longer what it was when the plugin was opened.
    BadEnv(&'static str),
}

pub struct Script {
    pub act:     Do,
    pub on_drop: Do,
    /// The status of errors converted from the library's own.
    pub conv:    (OS, LS),
    /// Panic while converting.
    pub conv_panics: bool,
    pub events:  Vec<Event>,
    pub prints:  Vec<(i32, Vec<u8>)>,
    /// The message function fails from this call on.
    pub fail_from: Option<usize>,
    pub calls:   usize,
    /// The message function of the plugin whose turn it is.
    pub via:     i32,
    /// Runs inside `open`, with the environment.
    pub look:    Option<Box<dyn FnMut(&'static IoEnv)>>,
}

static mut SCRIPT: *mut Script = std::ptr::null_mut();

pub fn script() -> &'static mut Script {
    unsafe {
        if SCRIPT.is_null() {
            SCRIPT = Box::leak(Box::new(Script { act: Do::Ok, on_drop: Do::Ok, conv: (OS::Deny, LS::Deny), conv_panics: false, events: vec![], prints: vec![], fail_from: None, calls: 0, via: 0, look: None }));
        }
        &mut *SCRIPT
    }
}

#[no_mangle]
pub extern "C" fn vp_record(via: i32, level: i32, buf: *const u8, len: i32) -> i32 {
    let s = script();
    // told apart from the plugin's own channels
    let level = level + (via - s.via) * 1000;
    s.calls += 1;
    if s.calls > 20000 { unsafe { libc::raise(libc::SIGXCPU); } }
    if s.fail_from.map_or(false, |k| s.calls > k) { return -1 }
    s.prints.push((level, unsafe { std::slice::from_raw_parts(buf, len as usize) }.to_vec()));
    len
}

extern "C" {
    pub fn vp_printf(level: libc::c_int, fmt: *const libc::c_char, ...) -> libc::c_int;
    pub fn vp_printf1(level: libc::c_int, fmt: *const libc::c_char, ...) -> libc::c_int;
    pub fn vp_printf2(level: libc::c_int, fmt: *const libc::c_char, ...) -> libc::c_int;
    pub fn vp_printf3(level: libc::c_int, fmt: *const libc::c_char, ...) -> libc::c_int;
}

struct Custom;

pub fn blow(p: Payload) -> ! {
    match p {
        Payload::Str => panic!("plain"),
        Payload::Empty => std::panic::panic_any(""),
        Payload::String => panic!("formatted {}", 1),
        Payload::Int => std::panic::panic_any(7i32),
        Payload::Struct => std::panic::panic_any(Custom),
        Payload::Unwrap => { let x: Option<u8> = std::hint::black_box(None); x.unwrap(); unreachable!() }
        Payload::Index => { let v: Vec<u8> = std::hint::black_box(vec![]); let _ = v[3]; unreachable!() }
        Payload::Arith => { let z = std::hint::black_box(0i32); let _ = std::hint::black_box(1 / z); unreachable!() }
        Payload::Resume => std::panic::resume_unwind(Box::new(1u8)),
    }
}

#[derive(Debug)]
pub struct Node { text: String, next: Option<Box<Node>>, panics: bool }
impl fmt::Display for Node { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.text) } }
impl std::error::Error for Node {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        if self.panics { panic!("source") }
        self.next.as_ref().map(|n| &**n as _)
    }
}

#[derive(Debug)]
pub struct PE { er: Er, next: Option<Box<Node>> }
impl PE {
    pub fn new(er: Er) -> PE {
        let mut next = None;
        for t in er.texts.iter().skip(1).rev() { next = Some(Box::new(Node { text: t.clone(), next, panics: er.panics == Some(At::Source) })) }
        PE { er, next }
    }
}
impl fmt::Display for PE {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.er.panics == Some(At::Display) { panic!("display") }
        f.write_str(self.er.texts.first().map_or("", |s| s))
    }
}
impl std::error::Error for PE {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { self.next.as_ref().map(|n| &**n as _) }
}
impl From<sudo_plugin::errors::Error> for PE {
    fn from(e: sudo_plugin::errors::Error) -> PE {
        if script().conv_panics { panic!("conversion") }
        let (open, log) = script().conv;
        PE::new(Er { texts: vec![format!("converted: {}", e)], open, log, panics: None })
    }
}
impl From<PE> for OpenStatus {
    fn from(e: PE) -> Self {
        if e.er.panics == Some(At::Open) { panic!("open status") }
        match e.er.open { OS::Ok => Self::Ok, OS::Disable => Self::Disable, OS::Deny => Self::Deny, OS::Usage => Self::Usage }
    }
}
impl From<PE> for LogStatus {
    fn from(e: PE) -> Self {
        if e.er.panics == Some(At::Log) { panic!("log status") }
        match e.er.log { LS::Ok => Self::Ok, LS::Deny => Self::Deny, LS::Disable => Self::Disable }
    }
}

fn act() -> Result<(), PE> {
    match script().act.clone() {
        Do::Ok => Ok(()),
        Do::Err(e) => Err(PE::new(e)),
        Do::Panic(p) => blow(p),
    }
}

/// What a plugin remembers of its environment, to notice its loss.
pub struct Memo { env: &'static IoEnv, user: String, cmd: Vec<Vec<u8>>, raw: Option<Vec<u8>>, name: String }
impl Memo {
    fn new(env: &'static IoEnv) -> Memo {
        Memo { env, user: env.user_info.user.clone(), cmd: env.cmdline.iter().map(|c| c.as_bytes().to_vec()).collect(),
               raw: env.plugin_options.get_bytes(b"memo").map(<[u8]>::to_vec), name: env.plugin_name.to_string() }
    }
    fn check(&self, at: &'static str) {
        let e = self.env;
        let ok = e.user_info.user == self.user && e.plugin_name == self.name && e.cmdline.len() == self.cmd.len()
            && e.cmdline.iter().zip(&self.cmd).all(|(a, b)| a.as_bytes() == &b[..])
            && e.plugin_options.get_bytes(b"memo") == self.raw.as_deref();
        if !ok { script().events.push(Event::BadEnv(at)) }
    }
}

macro_rules! probe {
    ($name:ident, $ty:ident, $text:expr, { $($items:tt)* }) => {
        pub struct $ty { memo: Memo }
        impl Drop for $ty {
            fn drop(&mut self) {
                self.memo.check("drop");
                script().events.push(Event::Drop);
                if let Do::Panic(p) = script().on_drop { if !std::thread::panicking() { blow(p) } }
            }
        }
        impl IoPlugin for $ty {
            type Error = PE;
            const NAME: &'static str = $text;
            fn open(env: &'static IoEnv) -> Result<Self, PE> {
                script().events.push(Event::Open(env.user_info.user.clone()));
                if let Some(f) = script().look.as_mut() { f(env) }
                act()?;
                Ok($ty { memo: Memo::new(env) })
            }
            $($items)*
        }
        sudo_io_plugin! { $name : $ty }
    };
}
macro_rules! handlers {
    () => {
        fn close(self, a: i32, b: i32) {
            self.memo.check("close");
            script().events.push(Event::Close(a, b));
            if let Do::Panic(p) = script().act { blow(p) }
        }
        fn log_ttyin (&self, d: &[u8]) -> Result<(), PE> { self.memo.check("log"); script().events.push(Event::Log(0, d.to_vec())); act() }
        fn log_ttyout(&self, d: &[u8]) -> Result<(), PE> { self.memo.check("log"); script().events.push(Event::Log(1, d.to_vec())); act() }
        fn log_stdin (&self, d: &[u8]) -> Result<(), PE> { self.memo.check("log"); script().events.push(Event::Log(2, d.to_vec())); act() }
        fn log_stdout(&self, d: &[u8]) -> Result<(), PE> { self.memo.check("log"); script().events.push(Event::Log(3, d.to_vec())); act() }
        fn log_stderr(&self, d: &[u8]) -> Result<(), PE> { self.memo.check("log"); script().events.push(Event::Log(4, d.to_vec())); act() }
        fn change_winsize(&self, l: u64, c: u64) -> Result<(), PE> { self.memo.check("winsize"); script().events.push(Event::Win(l, c)); act() }
    };
}

pub const B_VERSION: &str = "9.8.7-rc%s é";

// hints respected, default version and show_version
probe!(probe_a, ProbeA, "probe_a", { handlers!(); });
// hints ignored, a version and a name of its own
probe!(probe_b, ProbeB, "pröbe %d b", { const VERSION: &'static str = B_VERSION; const IGNORE_IOLOG_HINTS: bool = true; handlers!(); });
// nothing but open
probe!(probe_c, ProbeC, "probe_c", {});
// its own show_version
probe!(probe_d, ProbeD, "probe_d", {
    fn show_version(_: &IoEnv, verbose: bool) { script().events.push(Event::Version(verbose)); if let Do::Panic(p) = script().act { blow(p) } }
    handlers!();
});

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind { A, B, C, D }

impl Kind {
    pub fn plugin(self) -> *const sudo_plugin::sys::io_plugin {
        unsafe { match self {
            Kind::A => std::ptr::addr_of!(probe_a), Kind::B => std::ptr::addr_of!(probe_b),
            Kind::C => std::ptr::addr_of!(probe_c), Kind::D => std::ptr::addr_of!(probe_d),
        } }
    }
    pub fn name(self) -> &'static str { match self { Kind::A => "probe_a", Kind::B => "pröbe %d b", Kind::C => "probe_c", Kind::D => "probe_d" } }
    pub fn ignores_hints(self) -> bool { self == Kind::B }
    pub fn handles(self) -> bool { self != Kind::C }
}

/// Everything sudo passes to open.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Args {
    pub version: u32,
    pub settings: Vec<B>, pub user_info: Vec<B>, pub command_info: Vec<B>,
    pub argv: Vec<B>, pub env: Vec<B>, pub options: Option<Vec<B>>,
    pub low: bool, pub no_printf: bool,
}

impl Args {
    pub fn plain() -> Args {
        let v = |s: &[&str]| s.iter().map(|x| B::from(*x)).collect::<Vec<B>>();
        Args {
            version: 1 << 16 | 15,
            settings: v(&["plugin_dir=/usr/lib/sudo/", "plugin_path=probe.so", "progname=sudo"]),
            user_info: v(&["user=alice", "uid=1000", "gid=1000", "euid=0", "egid=1000", "groups=1000,27", "pid=77", "ppid=76", "pgid=77", "sid=70", "tcpgid=77", "cwd=/home/alice", "host=box", "lines=24", "cols=80"]),
            command_info: v(&["command=/bin/ls", "runas_uid=0", "runas_gid=0", "runas_groups=0", "iolog_ttyin=true", "iolog_ttyout=true", "iolog_stdin=true", "iolog_stdout=true", "iolog_stderr=true"]),
            argv: v(&["ls", "-l"]), env: v(&["HOME=/root"]), options: Some(v(&["memo=m"])), low: false, no_printf: false,
        }
    }
}
