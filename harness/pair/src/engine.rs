//! One "sudo" process per case: forked from this shard with the plugin
//! already loaded, driven through the plugin's C callbacks, while this
//! process plays the pair, the terminal and the other local users.

use crate::ctrl::{self, *};
use crate::env::{mix, Env, Paths, Target};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::fs;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd, RawFd};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{symlink, MetadataExt, PermissionsExt};
use std::os::unix::net::{UnixDatagram, UnixListener, UnixStream};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};
use vcore::B;

// ---- a case ----

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Buf { Lit(B), Pat(u8, u32) }
impl Buf {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Buf::Lit(b)    => b.0.clone(),
            Buf::Pat(s, n) => (0..*n).map(|i| (i.wrapping_mul(31) >> 3) as u8 ^ (i as u8).wrapping_add(*s)).collect(),
        }
    }
    pub fn len(&self) -> usize { match self { Buf::Lit(b) => b.len(), Buf::Pat(_, n) => *n as usize } }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op { TtyOut(Buf), StdOut(Buf), StdErr(Buf), StdIn(Buf), TtyIn(Buf), Winsize(u32, u32), Version(bool) }

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Then { Stay, Close, ShutWr }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum WaitAct { Sigint, Connect(B, Then), /** A long time passes. */ Elapse }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum ReadAct { Sigint, Send(B), Close, ShutWr, Elapse }
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Hang { AtOp(u16), AtWrite(u16), ShutRdAtOp(u16) }

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Pair {
    pub wait: Vec<WaitAct>, pub read: Vec<ReadAct>, pub hang: Option<Hang>,
    /// Writes during which the pair does not read for a long time.
    #[serde(default)]
    pub slow: Vec<u16>,
    /// What somebody sends who connects right after the pair.
    #[serde(default)]
    pub rival: Option<B>,
}
impl Pair {
    /// The pair leaves as soon as it is connected.
    pub fn leaves(&self) -> bool { self.wait.iter().any(|a| matches!(a, WaitAct::Connect(_, Then::Close))) }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Tpl { Default(B), NoDefault, File(B), Missing, Dir }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum TtyCfg { None, Empty, File, Pty, Full, Missing, Dir }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum DirCfg { Ok, Perm { mode: u32, owner: u32, group: u32 }, Missing, File, Socket, /** A symbolic link to such a directory. */ Link { mode: u32, owner: u32, group: u32 }, Dangling }
impl DirCfg {
    /// A directory, or a link to one: its mode and owner.
    pub fn perm(&self) -> Option<(u32, u32)> {
        match self { DirCfg::Ok => Some((0o755, 0)), DirCfg::Perm { mode, owner, .. } | DirCfg::Link { mode, owner, .. } => Some((*mode, *owner)), _ => None }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Pre { None, Stale, Live, File(B), Dir, Fifo, LinkFile, LinkDangling, LinkDir }

/// The system's log daemon.
#[derive(Clone, Copy, Debug, Default, PartialEq, Serialize, Deserialize)]
pub enum LogCfg { #[default] Absent, Present, Stale, /** Dies before this event. */ Dies(u8) }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fs {
    /// Name of the socket directory given as an option; None: the default.
    pub dir_name: Option<B>,
    pub slashes: u8,
    pub dir: DirCfg,
    pub pre: Pre,
    pub decoys: Vec<B>,
    pub user_tpl: Tpl,
    pub pair_tpl: Tpl,
    pub tty: TtyCfg,
    #[serde(default)]
    pub log: LogCfg,
    /// The names of the template files aren't UTF-8.
    #[serde(default)]
    pub odd: bool,
}
impl Default for Fs {
    fn default() -> Fs {
        Fs { dir_name: Some("s".into()), slashes: 0, dir: DirCfg::Ok, pre: Pre::None, decoys: vec![], user_tpl: Tpl::NoDefault, pair_tpl: Tpl::NoDefault, tty: TtyCfg::File, log: LogCfg::Absent, odd: false }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Disp { Handler { restart: bool, nodefer: bool, mask: u32, #[serde(default)] siginfo: bool }, Default, Ignore }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Proc {
    pub umask: u32, pub sigint: Disp, pub sigmask: u32, pub fill: u16, pub print_mode: u8, pub no_printf: bool, pub holder: bool,
    /// Real and effective uid of the sudo process (its capabilities are kept).
    #[serde(default)]
    pub ids: (u32, u32),
    /// Every Ctrl-C comes twice.
    #[serde(default)]
    pub twice: bool,
}
impl Default for Proc {
    fn default() -> Proc { Proc { umask: 0o22, sigint: Disp::Handler { restart: true, nodefer: false, mask: 0, siginfo: false }, sigmask: 0, fill: 0, print_mode: 0, no_printf: false, holder: false, ids: (0, 0), twice: false } }
}

/// `nth`: -1 is every call, -2-n every call from the nth on.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Fault { pub cls: i32, pub nth: i32, pub short: bool, pub value: i32 }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Who { pub uid: u32, pub gid: u32, pub sup: u32 }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub release: bool,
    pub env: Env,
    pub fs: Fs,
    pub proc_: Proc,
    pub pair: Pair,
    pub ops: Vec<Op>,
    pub close: (i32, i32),
    pub faults: Vec<Fault>,
    /// Identities that try to connect at the first wait, in this order.
    pub probes: Vec<Who>,
}

impl Case {
    pub fn new(env: Env) -> Case {
        Case { release: false, env, fs: Fs::default(), proc_: Proc::default(), pair: Pair::default(), ops: vec![], close: (0, 0), faults: vec![], probes: vec![] }
    }
}

// ---- what happened ----

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End { Exit(i32), Signal(i32), Hang, NoSocket }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Node { pub kind: u32, pub mode: u32, pub uid: u32, pub gid: u32, pub ino: u64, pub body: Vec<u8> }
pub type Listing = BTreeMap<Vec<u8>, Node>;

#[derive(Clone, Debug)]
pub struct Print { pub op: i32, pub level: i32, pub text: Vec<u8> }

#[derive(Debug)]
pub struct Run {
    pub end: End,
    pub open: i32,
    pub rets: Vec<i32>,
    pub states: [Option<PState>; 3],
    pub handler_addr: usize,
    pub rx: Vec<u8>,
    /// Bytes received when the k-th harness event (before open, after open, ...) was seen.
    pub marks: Vec<usize>,
    pub eof_at_done: bool,
    pub done: bool,
    pub connected: bool,
    pub waits: u32,
    pub reads: u32,
    pub first_byte: Option<u8>,
    pub hung_up_at: Option<usize>,
    pub pair_closed: bool,
    pub sigints: u32,
    pub elapsed: u32,
    pub acts_after_sigint: u32,
    pub handler_calls: i32,
    pub prints: Vec<Print>,
    pub tty: Vec<u8>,
    /// Terminal contents and number of messages at the first wait.
    pub at_wait: Option<(Vec<u8>, usize)>,
    pub snaps: Vec<Snap>,
    pub before: Listing,
    pub after_open: Listing,
    pub after: Listing,
    pub probes: Vec<(Who, Option<i32>)>,
    pub hits: Vec<i32>,
    pub counts: [i32; NCLS],
    pub sock_at_wait: Option<Node>,
    pub tty_rest: bool,
    /// What was sent to the log daemon, and how many events had happened.
    pub logged: Vec<(usize, Vec<u8>)>,
    /// Somebody connected after the pair, and what they were sent.
    pub rival: bool, pub rival_rx: Vec<u8>,
}

impl Run {
    /// Bytes received while op k (0-based, after open) ran.
    pub fn rx_of(&self, k: usize) -> &[u8] {
        let a = self.marks.get(k + 1).copied().unwrap_or(self.rx.len());
        let b = self.marks.get(k + 2).copied().unwrap_or(self.rx.len());
        &self.rx[a..b]
    }
    pub fn rx_open(&self) -> &[u8] { &self.rx[..self.marks.get(1).copied().unwrap_or(self.rx.len())] }
}

// ---- the plugin ----

type Open = extern "C" fn(c_uint, *mut c_void, *mut c_void, *const *mut c_char, *const *mut c_char, *const *mut c_char, c_int, *const *mut c_char, *const *mut c_char, *const *mut c_char, *mut *const c_char) -> c_int;
type CloseF = extern "C" fn(c_int, c_int);
type VersionF = extern "C" fn(c_int) -> c_int;
type LogF = extern "C" fn(*const c_char, c_uint, *mut *const c_char) -> c_int;
type WinF = extern "C" fn(c_uint, c_uint, *mut *const c_char) -> c_int;

#[repr(C)]
pub struct IoPlugin {
    ty: c_uint, version: c_uint,
    open: Option<Open>, close: Option<CloseF>, show_version: Option<VersionF>,
    log_ttyin: Option<LogF>, log_ttyout: Option<LogF>, log_stdin: Option<LogF>, log_stdout: Option<LogF>, log_stderr: Option<LogF>,
    register_hooks: *mut c_void, deregister_hooks: *mut c_void,
    change_winsize: Option<WinF>,
}

#[link(name = "dl")]
extern "C" {
    fn dlopen(f: *const c_char, fl: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
}

pub fn load(path: &Path) -> *const IoPlugin {
    unsafe {
        let c = CString::new(path.as_os_str().as_bytes()).unwrap();
        let h = dlopen(c.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
        assert!(!h.is_null(), "dlopen {}", path.display());
        let s = dlsym(h, c"sudo_pair".as_ptr());
        assert!(!s.is_null(), "symbol sudo_pair");
        s.cast()
    }
}

pub struct World { debug: *const IoPlugin, release: *const IoPlugin, root: PathBuf, n: u64, shms: Vec<Shm> }

impl World {
    pub fn new() -> World {
        unsafe { libc::setrlimit(libc::RLIMIT_CORE, &libc::rlimit { rlim_cur: 0, rlim_max: 0 }) };
        let t = std::env::var("VERIF_PLUGIN_DIR").expect("VERIF_PLUGIN_DIR");
        let root = PathBuf::from(format!("/tmp/vp{}", std::process::id()));
        let _ = fs::remove_dir_all(&root);
        fs::create_dir(&root).unwrap();
        fs::set_permissions(&root, fs::Permissions::from_mode(0o755)).unwrap();
        unsafe {
            libc::umask(0o22);
            let r = libc::rlimit { rlim_cur: 4096, rlim_max: 4096 };
            libc::setrlimit(libc::RLIMIT_NOFILE, &r);
        }
        World {
            debug:   load(&Path::new(&t).join("debug/libsudo_pair.so")),
            release: load(&Path::new(&t).join("release/libsudo_pair.so")),
            root, n: 0, shms: vec![],
        }
    }
    pub fn scratch(&mut self) -> PathBuf {
        self.n += 1;
        let d = self.root.join(self.n.to_string());
        fs::create_dir(&d).unwrap();
        d
    }
    fn shm(&mut self) -> Shm { self.shms.pop().unwrap_or_else(Shm::new) }
}
impl Drop for World { fn drop(&mut self) { let _ = fs::remove_dir_all(&self.root); } }

// ---- the file system of a case ----

pub struct Place { pub root: PathBuf, pub paths: Paths, pub dir: PathBuf, pub sock: PathBuf, pub tty_path: Option<PathBuf>, master: Option<OwnedFd>, logd: Option<UnixDatagram>, _keep: Vec<UnixListener> }

fn p(b: &[u8]) -> PathBuf { PathBuf::from(std::ffi::OsString::from_vec(b.to_vec())) }

fn tpl(t: &Tpl, given: &Path, default: &Path) -> Option<Vec<u8>> {
    match t {
        Tpl::NoDefault  => None,
        Tpl::Default(b) => { fs::write(default, &b.0).unwrap(); None }
        Tpl::File(b)    => { fs::write(given, &b.0).unwrap(); Some(given.as_os_str().as_bytes().to_vec()) }
        Tpl::Missing    => Some(given.as_os_str().as_bytes().to_vec()),
        Tpl::Dir        => { fs::create_dir(given).unwrap(); Some(given.as_os_str().as_bytes().to_vec()) }
    }
}

/// The template a reader of that configuration sees, if any.
pub fn tpl_text(t: &Tpl) -> Option<&[u8]> { match t { Tpl::Default(b) | Tpl::File(b) => Some(&b.0), _ => None } }

fn mknod_at(dir: &Path, name: &Path, pre: &Pre, keep: &mut Vec<UnixListener>) {
    let _ = dir;
    match pre {
        Pre::None  => (),
        // paths too long for a socket are left out
        Pre::Stale => { let _ = UnixListener::bind(name); }
        Pre::Live  => { if let Ok(l) = UnixListener::bind(name) { keep.push(l) } }
        Pre::File(b) => { let _ = fs::write(name, &b.0); }
        Pre::Dir   => { let _ = fs::create_dir(name); }
        Pre::Fifo  => unsafe { let c = CString::new(name.as_os_str().as_bytes()).unwrap(); libc::mkfifo(c.as_ptr(), 0o600); },
        Pre::LinkFile => { let t = dir.join("target"); let _ = fs::write(&t, b"victim"); let _ = symlink(&t, name); }
        Pre::LinkDangling => { let _ = symlink(dir.join("nowhere"), name); }
        Pre::LinkDir => { let t = dir.join("targetd"); let _ = fs::create_dir(&t); let _ = symlink(&t, name); }
    }
}

pub fn place(root: PathBuf, f: &Fs, env: &Env) -> Place {
    let mut keep = vec![];
    let dir = match &f.dir_name { Some(n) => root.join(p(&n.0)), None => root.join("d") };
    match &f.dir {
        DirCfg::Ok => { fs::create_dir_all(&dir).unwrap(); fs::set_permissions(&dir, fs::Permissions::from_mode(0o755)).unwrap(); }
        DirCfg::Perm { mode, owner, group } => {
            fs::create_dir_all(&dir).unwrap();
            std::os::unix::fs::chown(&dir, Some(*owner), Some(*group)).unwrap();
            fs::set_permissions(&dir, fs::Permissions::from_mode(*mode)).unwrap();
        }
        DirCfg::Link { mode, owner, group } => {
            let real = root.join("real");
            fs::create_dir(&real).unwrap();
            std::os::unix::fs::chown(&real, Some(*owner), Some(*group)).unwrap();
            fs::set_permissions(&real, fs::Permissions::from_mode(*mode)).unwrap();
            fs::create_dir_all(dir.parent().unwrap()).unwrap();
            symlink(&real, &dir).unwrap();
        }
        DirCfg::Dangling => symlink(root.join("nowhere"), &dir).unwrap(),
        DirCfg::Missing => (),
        DirCfg::File => fs::write(&dir, b"x").unwrap(),
        DirCfg::Socket => { if let Ok(l) = UnixListener::bind(&dir) { keep.push(l) } }
    }
    let sock = dir.join(env.sock_name());
    if f.dir.perm().is_some() {
        mknod_at(&dir, &sock, &f.pre, &mut keep);
        for d in &f.decoys {
            let n = dir.join(p(&d.0));
            if fs::symlink_metadata(&n).is_err() { let _ = fs::write(&n, b"decoy"); }
        }
    }
    let mut paths = Paths::default();
    if f.dir_name.is_some() {
        let mut d = dir.as_os_str().as_bytes().to_vec();
        d.extend(std::iter::repeat(b'/').take(f.slashes as usize));
        paths.socket_dir = Some(d);
    }
    let (tu, tp): (&[u8], &[u8]) = if f.odd { (b"t\xff\xe9u", b"t\xff\xe9p") } else { (b"tu", b"tp") };
    paths.user_prompt = tpl(&f.user_tpl, &root.join(p(tu)), &root.join("du"));
    paths.pair_prompt = tpl(&f.pair_tpl, &root.join(p(tp)), &root.join("dp"));
    let mut master = None;
    let tty: Option<PathBuf> = match f.tty {
        TtyCfg::None => None,
        TtyCfg::Empty => { paths.tty = Some(vec![]); None }
        TtyCfg::File => { let t = root.join("tty"); fs::write(&t, b"").unwrap(); Some(t) }
        TtyCfg::Full => Some("/dev/full".into()),
        TtyCfg::Missing => Some(root.join("notty")),
        TtyCfg::Dir => { let t = root.join("ttyd"); fs::create_dir(&t).unwrap(); Some(t) }
        TtyCfg::Pty => {
            let (m, s) = openpty();
            master = Some(m);
            Some(s)
        }
    };
    if let Some(t) = &tty { paths.tty = Some(t.as_os_str().as_bytes().to_vec()) }
    let logd = match f.log {
        LogCfg::Absent => None,
        _ => {
            let d = UnixDatagram::bind(root.join("log")).unwrap();
            d.set_nonblocking(true).unwrap();
            (f.log != LogCfg::Stale).then_some(d)
        }
    };
    Place { root, paths, dir, sock, tty_path: tty, master, logd, _keep: keep }
}

fn openpty() -> (OwnedFd, PathBuf) {
    unsafe {
        let (mut m, mut s) = (0, 0);
        let mut t: libc::termios = std::mem::zeroed();
        libc::cfmakeraw(&mut t);
        t.c_cflag |= libc::CS8 | libc::CREAD;
        let mut name = [0 as c_char; 128];
        assert_eq!(libc::openpty(&mut m, &mut s, name.as_mut_ptr(), &t, std::ptr::null_mut()), 0, "openpty");
        // the slave stays open here so that what is written is not lost
        // when the plugin closes it; the descriptor is leaked into `m`'s slot
        libc::fcntl(m, libc::F_SETFL, libc::O_NONBLOCK);
        SLAVES.with(|v| v.borrow_mut().push(OwnedFd::from_raw_fd(s)));
        let n = std::ffi::CStr::from_ptr(name.as_ptr()).to_bytes().to_vec();
        (OwnedFd::from_raw_fd(m), p(&n))
    }
}
thread_local! { static SLAVES: std::cell::RefCell<Vec<OwnedFd>> = const { std::cell::RefCell::new(vec![]) }; }

pub fn listing(dir: &Path) -> Listing {
    let mut l = Listing::new();
    for e in fs::read_dir(dir).into_iter().flatten().flatten() {
        if let Some(n) = node(&e.path()) { let _ = l.insert(e.file_name().into_vec(), n); }
    }
    l
}
pub fn node(path: &Path) -> Option<Node> {
    let m = fs::symlink_metadata(path).ok()?;
    let kind = m.mode() & libc::S_IFMT;
    let body = match kind {
        libc::S_IFREG => fs::read(path).unwrap_or_default(),
        libc::S_IFLNK => fs::read_link(path).map(|p| p.into_os_string().into_vec()).unwrap_or_default(),
        _ => vec![],
    };
    Some(Node { kind, mode: m.mode() & 0o7777, uid: m.uid(), gid: m.gid(), ino: m.ino(), body })
}

// ---- identities ----

/// This thread's effective ids (raw calls change the calling thread's only).
fn act_as(w: Who) -> bool {
    let keep = -1i32;
    unsafe {
        let g = [w.sup];
        let n = if w.sup == u32::MAX { 0 } else { 1 };
        libc::syscall(libc::SYS_setgroups, n, g.as_ptr()) == 0
            && libc::syscall(libc::SYS_setresgid, keep, w.gid, keep) == 0
            && libc::syscall(libc::SYS_setresuid, keep, w.uid, keep) == 0
    }
}
fn act_as_root() {
    unsafe { libc::syscall(libc::SYS_setresuid, -1i32, 0, -1i32); }
    if !act_as(Who { uid: 0, gid: 0, sup: u32::MAX }) { std::process::abort() }
    // (changing ids makes a process undumpable, its /proc entries another's)
    unsafe { libc::prctl(libc::PR_SET_DUMPABLE, 1); }
}

/// Connects as somebody else. Ok(Err(errno)): refused by the system.
pub fn connect_as(w: Who, path: &Path) -> Option<Result<UnixStream, i32>> {
    let r = act_as(w).then(|| UnixStream::connect(path).map_err(|e| e.raw_os_error().unwrap_or(-1)));
    act_as_root();
    r
}

// ---- the sudo process ----

fn carr(v: &[Vec<u8>]) -> (Vec<CString>, Vec<*mut c_char>) {
    let s: Vec<CString> = v.iter().map(|b| CString::new(b.clone()).expect("NUL in generated string")).collect();
    let mut a: Vec<*mut c_char> = s.iter().map(|c| c.as_ptr() as *mut c_char).collect();
    a.push(std::ptr::null_mut());
    (s, a)
}

static mut CTRL: *mut Ctrl = std::ptr::null_mut();
static mut HANDLER_SAW: i32 = 0;
extern "C" fn on_int(_: c_int) { unsafe { (*CTRL).handler_calls += 1; HANDLER_SAW += 1 } }
/// For a handler that asks for the signal's details.
extern "C" fn on_int_info(s: c_int, i: *const libc::siginfo_t, _: *const c_void) {
    unsafe { if s == libc::SIGINT && !i.is_null() && (*i).si_signo == libc::SIGINT && (*i).si_code == libc::SI_USER { (*CTRL).handler_calls += 1; HANDLER_SAW += 1 } }
}

fn fd_count() -> i32 { 2200 }

fn take_state(s: &mut PState, base: &[bool]) -> Vec<bool> {
    let mut open = vec![false; fd_count() as usize];
    unsafe {
        let u = libc::umask(0);
        libc::umask(u);
        s.umask = u as u32;
        let mut sa: libc::sigaction = std::mem::zeroed();
        libc::sigaction(libc::SIGINT, std::ptr::null(), &mut sa);
        s.handler = sa.sa_sigaction;
        s.sa_flags = sa.sa_flags & !0x0400_0000;
        s.sa_mask = *(&sa.sa_mask as *const _ as *const u64);
        let mut m: libc::sigset_t = std::mem::zeroed();
        libc::sigprocmask(libc::SIG_BLOCK, std::ptr::null(), &mut m);
        s.sigmask = *(&m as *const _ as *const u64);
        s.nfds = 0;
        s.xfds = 0;
        for fd in 0..fd_count() {
            let r = libc::fcntl(fd, libc::F_GETFD);
            if r < 0 { continue }
            open[fd as usize] = true;
            s.nfds += 1;
            if base.is_empty() || base[fd as usize] { continue }
            if (s.xfds as usize) < MAXFDS {
                s.fds[s.xfds as usize] = fd;
                let (mut ty, mut l): (c_int, libc::socklen_t) = (0, 4);
                let dgram = libc::getsockopt(fd, libc::SOL_SOCKET, libc::SO_TYPE, (&mut ty as *mut c_int).cast(), &mut l) == 0 && ty == libc::SOCK_DGRAM;
                // 2: the connection to the log daemon
                s.noexec[s.xfds as usize] = u8::from(r & libc::FD_CLOEXEC == 0) * if dgram { 2 } else { 1 };
            }
            s.xfds += 1;
        }
        s.taken = 1;
    }
    open
}

/// Takes on other user ids, keeping every capability.
unsafe fn become_ids((ruid, euid): (u32, u32)) -> bool {
    if (ruid, euid) == (0, 0) { return true }
    let mut hdr = [0x2008_0522u32, 0];      // _LINUX_CAPABILITY_VERSION_3, this process
    let mut caps = [[0u32; 3]; 2];          // effective, permitted, inheritable
    libc::prctl(libc::PR_SET_KEEPCAPS, 1);
    if libc::syscall(libc::SYS_setresuid, ruid, euid, euid) != 0 { return false }
    if libc::syscall(libc::SYS_capget, hdr.as_mut_ptr(), caps.as_mut_ptr()) != 0 { return false }
    for c in &mut caps { c[0] = c[1] }
    if libc::syscall(libc::SYS_capset, hdr.as_mut_ptr(), caps.as_mut_ptr()) != 0 { return false }
    libc::prctl(libc::PR_SET_KEEPCAPS, 0);
    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    true
}

struct Prepared { api: c_uint, settings: (Vec<CString>, Vec<*mut c_char>), user: (Vec<CString>, Vec<*mut c_char>), command: (Vec<CString>, Vec<*mut c_char>),
    argv: (Vec<CString>, Vec<*mut c_char>), env: (Vec<CString>, Vec<*mut c_char>), options: (Vec<CString>, Vec<*mut c_char>) }

fn child(case: &Case, pre: &Prepared, plug: &IoPlugin, shm: &Shm, ev: RawFd) -> ! {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        // fd 3 is the harness, everything else is closed
        if ev != 3 { libc::dup2(ev, 3); }
        libc::syscall(libc::SYS_close_range, 4u32, u32::MAX, 0);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
        for f in 0..3 { libc::dup2(null, f); }
        libc::close(null);
        for _ in 0..case.proc_.fill { if libc::dup(0) < 0 { break } }

        let c = &mut *shm.ctrl;
        let r = &mut *shm.res;
        c.evfd = 3;
        CTRL = shm.ctrl;
        ctrl::attach(shm.ctrl);
        libc::signal(libc::SIGPIPE, libc::SIG_DFL);
        let mut sa: libc::sigaction = std::mem::zeroed();
        let mut set: libc::sigset_t = std::mem::zeroed();
        *(&mut set as *mut _ as *mut u64) = u64::from(case.proc_.sigmask) << 32;   // real-time signals
        libc::sigprocmask(libc::SIG_SETMASK, &set, std::ptr::null_mut());
        match case.proc_.sigint {
            Disp::Handler { restart, nodefer, mask, siginfo } => {
                sa.sa_sigaction = if siginfo { on_int_info as extern "C" fn(c_int, *const libc::siginfo_t, *const c_void) as usize } else { on_int as extern "C" fn(c_int) as usize };
                if siginfo { sa.sa_flags |= libc::SA_SIGINFO }
                if restart { sa.sa_flags |= libc::SA_RESTART }
                if nodefer { sa.sa_flags |= libc::SA_NODEFER }
                *(&mut sa.sa_mask as *mut _ as *mut u64) = u64::from(mask) << 32;
            }
            Disp::Default => sa.sa_sigaction = libc::SIG_DFL,
            Disp::Ignore  => sa.sa_sigaction = libc::SIG_IGN,
        }
        libc::sigaction(libc::SIGINT, &sa, std::ptr::null_mut());
        r.handler_addr = sa.sa_sigaction;
        libc::umask(case.proc_.umask as libc::mode_t);
        if !become_ids(case.proc_.ids) { libc::_exit(79) }

        let base = take_state(&mut r.states[0], &[]);
        let mut err: *const c_char = std::ptr::null();
        let mut n = 0;
        let mut op = |c: &mut Ctrl| { let k = n; n += 1; c.op = k; ctrl::sync(EV_OP, 0, k); };

        op(c);
        c.armed = 1;
        ctrl::snap(C_OTHER);
        let ret = (plug.open.expect("open"))(pre.api, ctrl::conv_ptr(),
            if case.proc_.no_printf { std::ptr::null_mut() } else { ctrl::printf_ptr() },
            pre.settings.1.as_ptr(), pre.user.1.as_ptr(), pre.command.1.as_ptr(),
            case.env.argv.len() as c_int, pre.argv.1.as_ptr(), pre.env.1.as_ptr(), pre.options.1.as_ptr(), &mut err);
        ctrl::snap(C_OTHER);
        c.armed = 0;
        r.rets[0] = ret;
        let _ = take_state(&mut r.states[1], &base);

        let mut holder = 0;
        if ret == 1 {
            if case.proc_.holder {
                holder = libc::fork();
                if holder == 0 {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    libc::close(3);
                    loop { libc::pause(); }
                }
            }
            for (i, o) in case.ops.iter().enumerate() {
                op(c);
                let log = |f: Option<LogF>, b: &Buf, err: &mut *const c_char| -> c_int {
                    let v = b.bytes();
                    let Some(f) = f else { return 1 };
                    (*CTRL).armed = 1;
                    let x = f(v.as_ptr().cast(), v.len() as c_uint, err);
                    (*CTRL).armed = 0;
                    x
                };
                r.rets[1 + i] = match o {
                    Op::TtyOut(b) => log(plug.log_ttyout, b, &mut err),
                    Op::StdOut(b) => log(plug.log_stdout, b, &mut err),
                    Op::StdErr(b) => log(plug.log_stderr, b, &mut err),
                    Op::StdIn(b)  => log(plug.log_stdin, b, &mut err),
                    Op::TtyIn(b)  => log(plug.log_ttyin, b, &mut err),
                    Op::Winsize(l, w) => { c.armed = 1; let x = plug.change_winsize.map_or(1, |f| f(*l, *w, &mut err)); (*CTRL).armed = 0; x }
                    Op::Version(v) => { c.armed = 1; let x = plug.show_version.map_or(1, |f| f(c_int::from(*v))); (*CTRL).armed = 0; x }
                };
            }
            op(c);
            c.armed = 1;
            if let Some(f) = plug.close { f(case.close.0, case.close.1) }
            c.armed = 0;
        }
        let _ = take_state(&mut r.states[2], &base);
        r.done = 1;
        ctrl::sync(EV_DONE, 0, n);
        if holder > 0 { libc::kill(holder, libc::SIGKILL); libc::waitpid(holder, std::ptr::null_mut(), 0); }
        libc::_exit(0)
    }
}

pub enum Happened { Ev(Ev), Gone(End) }

pub struct Sess {
    pub case: Case, pub place: Place, shm: Option<Shm>, ev: OwnedFd, pid: libc::pid_t,
    pub conn: Option<UnixStream>, rival: Option<UnixStream>, pub conn_eof: bool, pub sent: bool, wi: usize, ri: usize, probed: bool,
    pub run: Run, pub patience: Duration,
}

impl Sess {
    pub fn start(w: &mut World, case: &Case) -> Sess {
        let root = w.scratch();
        let place = place(root, &case.fs, &case.env);
        Sess::start_in(w, case, place)
    }

    pub fn start_in(w: &mut World, case: &Case, place: Place) -> Sess {
        let v = case.env.vectors(&place.paths);
        let pre = Prepared {
            api: (u32::from(case.env.api.0) << 16) | u32::from(case.env.api.1),
            settings: carr(&v.settings), user: carr(&v.user), command: carr(&v.command),
            argv: carr(&case.env.argv.iter().map(|b| b.0.clone()).collect::<Vec<_>>()), env: carr(&v.env), options: carr(&v.options),
        };
        let mut shm = w.shm();
        shm.reset();
        let c = shm.c();
        c.sync_mask = 1 << C_WAIT | 1 << C_ACCEPT | 1 << C_READ;
        if matches!(case.pair.hang, Some(Hang::AtWrite(_))) || !case.pair.slow.is_empty() { c.sync_mask |= 1 << C_WRITE }
        c.print_mode = i32::from(case.proc_.print_mode);
        for (i, f) in case.faults.iter().take(MAXFAULT).enumerate() {
            c.faults[i] = CFault { cls: f.cls, nth: f.nth, kind: if f.short { 2 } else { 1 }, value: f.value, hit: 0 };
        }
        c.nfault = case.faults.len().min(MAXFAULT) as i32;
        let put = |d: &mut [u8], s: &[u8]| { assert!(s.len() < d.len()); d.fill(0); d[..s.len()].copy_from_slice(s) };
        put(&mut c.sock_path, place.sock.as_os_str().as_bytes());
        put(&mut c.root, place.root.parent().unwrap().as_os_str().as_bytes());
        for (i, (f, t)) in [("/var/run/sudo_pair", "d"), ("/run/sudo_pair", "d"), ("/etc/sudo_pair.prompt.user", "du"), ("/etc/sudo_pair.prompt.pair", "dp"), ("/dev/log", "log")].iter().enumerate() {
            put(&mut c.redirs[i].from, f.as_bytes());
            put(&mut c.redirs[i].to, place.root.join(t).as_os_str().as_bytes());
            c.nredir = i as i32 + 1;
        }
        let plug = unsafe { &*(if case.release { w.release } else { w.debug }) };
        let before = listing(&place.dir);
        let mut sv = [0; 2];
        unsafe { assert_eq!(libc::socketpair(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0, sv.as_mut_ptr()), 0) };
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 { child(case, &pre, plug, &shm, sv[1]) }
        unsafe { libc::close(sv[1]); }
        let run = Run {
            end: End::Hang, open: i32::MIN, rets: vec![], states: [None; 3], handler_addr: 0, rx: vec![], marks: vec![], eof_at_done: false, done: false, connected: false,
            waits: 0, reads: 0, first_byte: None, hung_up_at: None, pair_closed: false, sigints: 0, elapsed: 0, acts_after_sigint: 0, handler_calls: 0, prints: vec![], tty: vec![],
            at_wait: None, snaps: vec![], before, after_open: Listing::new(), after: Listing::new(), probes: vec![], hits: vec![], counts: [0; NCLS], sock_at_wait: None, tty_rest: false, logged: vec![], rival: false, rival_rx: vec![],
        };
        Sess { case: case.clone(), place, shm: Some(shm), ev: unsafe { OwnedFd::from_raw_fd(sv[0]) }, pid, conn: None, rival: None, conn_eof: false, sent: false, wi: 0, ri: 0, probed: false, run, patience: Duration::from_secs(20) }
    }

    pub fn evfd(&self) -> RawFd { self.ev.as_raw_fd() }
    pub fn shm(&self) -> &Shm { self.shm.as_ref().unwrap() }

    /// Takes what the plugin has sent so far.
    pub fn drain(&mut self) {
        if let Some(c) = &mut self.conn {
            let mut b = [0u8; 65536];
            while !self.conn_eof {
                let n = unsafe { libc::recv(c.as_raw_fd(), b.as_mut_ptr().cast(), b.len(), libc::MSG_DONTWAIT) };
                if n > 0 { self.run.rx.extend_from_slice(&b[..n as usize]) }
                else if n == 0 { self.conn_eof = true }
                else {
                    let e = std::io::Error::last_os_error().raw_os_error().unwrap_or(0);
                    if e != libc::EAGAIN && e != libc::EINTR { self.conn_eof = true }
                    break
                }
            }
        }
        if let Some(m) = &self.place.master {
            let mut b = [0u8; 4096];
            loop {
                let n = unsafe { libc::read(m.as_raw_fd(), b.as_mut_ptr().cast(), b.len()) };
                if n <= 0 { break }
                self.run.tty.extend_from_slice(&b[..n as usize]);
            }
        }
        if let Some(d) = &self.place.logd {
            let mut b = vec![0u8; 300_000];
            while let Ok(n) = d.recv(&mut b) { self.run.logged.push((self.run.marks.len(), b[..n].to_vec())) }
        }
    }

    pub fn next(&mut self) -> Happened {
        let t0 = Instant::now();
        loop {
            let mut pf = vec![libc::pollfd { fd: self.ev.as_raw_fd(), events: libc::POLLIN, revents: 0 }];
            if let (Some(c), false) = (&self.conn, self.conn_eof) { pf.push(libc::pollfd { fd: c.as_raw_fd(), events: libc::POLLIN, revents: 0 }) }
            if let Some(m) = &self.place.master { pf.push(libc::pollfd { fd: m.as_raw_fd(), events: libc::POLLIN, revents: 0 }) }
            if let Some(d) = &self.place.logd { pf.push(libc::pollfd { fd: d.as_raw_fd(), events: libc::POLLIN, revents: 0 }) }
            let left = self.patience.checked_sub(t0.elapsed());
            let Some(left) = left else { return Happened::Gone(self.kill(End::Hang)) };
            let r = unsafe { libc::poll(pf.as_mut_ptr(), pf.len() as _, left.as_millis() as i32 + 1) };
            if r < 0 { continue }
            if pf[0].revents != 0 {
                let mut e = Ev::default();
                let n = unsafe { libc::read(self.ev.as_raw_fd(), (&mut e as *mut Ev).cast(), std::mem::size_of::<Ev>()) };
                if n == std::mem::size_of::<Ev>() as isize {
                    self.drain();
                    return Happened::Ev(e);
                }
                return Happened::Gone(self.reap());
            }
            self.drain();
        }
    }

    fn reap(&mut self) -> End {
        let mut st = 0;
        unsafe { while libc::waitpid(self.pid, &mut st, 0) < 0 {} }
        self.pid = 0;
        if libc::WIFSIGNALED(st) { End::Signal(libc::WTERMSIG(st)) } else { End::Exit(libc::WEXITSTATUS(st)) }
    }
    pub fn kill(&mut self, e: End) -> End {
        unsafe { libc::kill(self.pid, libc::SIGKILL); }
        let _ = self.reap();
        e
    }
    pub fn ack(&mut self, a: u8) { let _ = unsafe { libc::send(self.ev.as_raw_fd(), (&a as *const u8).cast(), 1, libc::MSG_NOSIGNAL) }; }

    pub fn connect(&mut self) -> Result<(), i32> {
        // root, or somebody who may act as the target, wherever they get through to the socket
        let who = match self.case.env.target() {
            Target::User(uid)  => Some(Who { uid, gid: self.case.env.gid, sup: u32::MAX }),
            Target::Group(gid) => Some(Who { uid: self.case.env.uid, gid, sup: u32::MAX }),
            _                  => None,
        }.filter(|w| w.uid != u32::MAX && w.gid != u32::MAX && mix(self.case.env.order ^ u64::from(self.case.env.pid), 991) & 1 == 0);
        let c = match who.and_then(|w| connect_as(w, &self.place.sock)) {
            Some(Ok(c)) => c,
            _           => UnixStream::connect(&self.place.sock).map_err(|e| e.raw_os_error().unwrap_or(-1))?,
        };
        self.conn = Some(c);
        self.run.connected = true;
        Ok(())
    }
    pub fn send(&mut self, b: &[u8]) {
        if let (Some(c), false) = (&mut self.conn, b.is_empty()) {
            if c.write_all(b).is_ok() {
                self.sent = true;
                if self.run.first_byte.is_none() { self.run.first_byte = Some(b[0]) }
            }
        }
    }
    /// Somebody else connects, too late to be the pair.
    fn intrude(&mut self) {
        let Some(b) = self.case.pair.rival.clone() else { return };
        if let Ok(mut c) = UnixStream::connect(&self.place.sock) {
            let _ = c.set_nonblocking(true);
            let _ = c.write(&b.0);
            self.rival = Some(c);
        }
    }
    fn hang_up(&mut self) { self.drain(); self.conn = None; self.run.pair_closed = true; }
    fn interrupt(&mut self) {
        let twice = self.case.proc_.twice;
        self.run.sigints += 1 + u32::from(twice);
        self.ack(if twice { ACK_SIGINT2 } else { ACK_SIGINT });
    }
    fn shut_wr(&mut self) { if let Some(c) = &self.conn { let _ = c.shutdown(std::net::Shutdown::Write); } self.run.pair_closed = true; }
    fn finish(&mut self, t: Then) { match t { Then::Stay => (), Then::Close => self.hang_up(), Then::ShutWr => self.shut_wr() } }

    /// The terminal's contents and the messages given so far.
    pub fn note_wait(&mut self) {
        if self.run.at_wait.is_none() {
            let t = self.tty_now();
            let n = self.shm().c().nprint as usize;
            self.run.at_wait = Some((t, n));
            self.run.sock_at_wait = node(&self.place.sock);
        }
    }
    fn tty_now(&mut self) -> Vec<u8> {
        match (self.case.fs.tty.clone(), &self.place.tty_path) {
            (TtyCfg::Pty, _) => { self.drain(); self.run.tty.clone() }
            (TtyCfg::File, Some(t)) => fs::read(t).unwrap_or_default(),
            _ => vec![],
        }
    }

    /// Records a harness event.
    pub fn mark(&mut self) {
        if matches!(self.case.fs.log, LogCfg::Dies(n) if usize::from(n) == self.run.marks.len()) { self.place.logd = None }
        self.run.marks.push(self.run.rx.len());
        if self.run.marks.len() == 2 { self.run.after_open = listing(&self.place.dir) }
    }

    /// Plays the case's own script to the end.
    pub fn play(mut self) -> (Sess, ()) {
        loop {
            match self.next() {
                Happened::Gone(e) => { self.run.end = e; break }
                Happened::Ev(e)   => if let Some(end) = self.step(e) { self.run.end = end; break },
            }
        }
        self.collect();
        (self, ())
    }

    pub fn step(&mut self, e: Ev) -> Option<End> {
        match (e.ty, e.cls) {
            (EV_OP, _) => {
                self.mark();
                match self.case.pair.hang {
                    Some(Hang::AtOp(k)) if i32::from(k) + 1 == e.n && self.conn.is_some() => { self.hang_up(); self.run.hung_up_at = Some(k as usize) }
                    Some(Hang::ShutRdAtOp(k)) if i32::from(k) + 1 == e.n && self.conn.is_some() => {
                        self.drain();
                        if let Some(c) = &self.conn { let _ = c.shutdown(std::net::Shutdown::Read); }
                        self.run.hung_up_at = Some(k as usize);
                    }
                    _ => (),
                }
                self.ack(ACK_GO);
            }
            (EV_DONE, _) => {
                self.mark();
                self.run.done = true;
                self.run.eof_at_done = self.conn_eof;
                self.run.after = listing(&self.place.dir);
                self.ack(ACK_GO);
            }
            (EV_SYNC, C_WRITE) => {
                if let Some(Hang::AtWrite(k)) = self.case.pair.hang {
                    if i32::from(k) == e.n && self.conn.is_some() {
                        self.hang_up();
                        self.run.hung_up_at = Some(self.run.marks.len().saturating_sub(2));
                    }
                }
                let slow = self.case.pair.slow.iter().any(|k| i32::from(*k) == e.n);
                self.ack(if slow { ACK_ELAPSE } else { ACK_GO });
            }
            (EV_SYNC, _) if !self.run.connected => {
                self.run.waits += 1;
                self.note_wait();
                if !self.probed && !self.case.probes.is_empty() {
                    self.probed = true;
                    for w in self.case.probes.clone() {
                        let Some(r) = connect_as(w, &self.place.sock) else { continue };
                        let err = r.as_ref().err().copied();
                        self.run.probes.push((w, err));
                        if let Ok(c) = r {
                            self.conn = Some(c);
                            self.run.connected = true;
                            self.intrude();
                            self.ack(ACK_GO);
                            return None;
                        }
                    }
                }
                let act = self.case.pair.wait.get(self.wi).cloned().unwrap_or(WaitAct::Connect(B::default(), Then::Stay));
                self.wi += 1;
                if self.run.sigints > 0 { self.run.acts_after_sigint += 1 }
                match act {
                    WaitAct::Sigint => self.interrupt(),
                    WaitAct::Elapse => { self.run.elapsed += 1; self.ack(ACK_ELAPSE) }
                    WaitAct::Connect(b, t) => {
                        if self.connect().is_err() { return Some(self.kill(End::NoSocket)) }
                        self.send(&b.0);
                        self.finish(t);
                        self.intrude();
                        self.ack(ACK_GO);
                    }
                }
            }
            (EV_SYNC, cls) => {
                if cls == C_READ { self.run.reads += 1 }
                // accept() or a poll of the listener after connecting needs nothing more
                if self.sent || self.run.pair_closed || cls != C_READ { self.ack(ACK_GO); return None }
                let act = self.case.pair.read.get(self.ri).cloned().unwrap_or_else(|| ReadAct::Send("y".into()));
                self.ri += 1;
                if self.run.sigints > 0 { self.run.acts_after_sigint += 1 }
                match act {
                    ReadAct::Sigint  => { self.interrupt(); return None }
                    ReadAct::Elapse  => { self.run.elapsed += 1; self.ack(ACK_ELAPSE); return None }
                    ReadAct::Send(b) => { let b = if b.is_empty() { b"n".to_vec() } else { b.0 }; self.send(&b) }
                    ReadAct::Close   => self.hang_up(),
                    ReadAct::ShutWr  => self.shut_wr(),
                }
                self.ack(ACK_GO);
            }
            _ => self.ack(ACK_GO),
        }
        None
    }

    pub fn collect(&mut self) {
        self.drain();
        if let Some(c) = &mut self.rival {
            let mut b = [0u8; 4096];
            if let Ok(n) = c.read(&mut b) { self.run.rival_rx.extend_from_slice(&b[..n]) }
            self.run.rival = true;
        }
        self.run.tty = self.tty_now();
        let shm = self.shm.as_ref().unwrap();
        let (c, r) = (shm.c(), shm.r());
        self.run.open = r.rets[0];
        self.run.rets = (0..self.case.ops.len()).map(|i| r.rets[1 + i]).collect();
        for i in 0..3 { self.run.states[i] = (r.states[i].taken == 1).then_some(r.states[i]) }
        self.run.handler_addr = r.handler_addr;
        self.run.handler_calls = c.handler_calls;
        self.run.snaps = c.snaps[..c.nsnap.clamp(0, MAXSNAP as i32) as usize].to_vec();
        self.run.prints = c.prints[..c.nprint.clamp(0, MAXPRINT as i32) as usize].iter().map(|p| Print {
            op: p.op, level: p.level, text: c.printbuf[p.off as usize..(p.off + p.len) as usize].to_vec(),
        }).collect();
        self.run.hits = c.faults[..c.nfault as usize].iter().map(|f| f.hit).collect();
        self.run.counts = c.counts;
        if !self.run.done { self.run.after = listing(&self.place.dir) }
        if self.run.marks.len() < 2 { self.run.after_open = self.run.after.clone() }
    }

    /// Cleans up and returns what happened.
    pub fn end(mut self, w: &mut World) -> Run {
        if self.pid != 0 { let _ = self.kill(End::Hang); }
        self.conn = None;
        w.shms.push(self.shm.take().unwrap());
        SLAVES.with(|v| v.borrow_mut().clear());
        let _ = fs::remove_dir_all(&self.place.root);
        self.run
    }
}

/// Runs one case. A hang must repeat to count.
pub fn run(w: &mut World, case: &Case) -> Run {
    let go = |w: &mut World| { let s = Sess::start(w, case); let (s, ()) = s.play(); s.end(w) };
    let r = go(w);
    if r.end == End::Hang { go(w) } else { r }
}

/// Reads what is left, for sessions whose pair stays to the end.
pub fn rest(c: &mut UnixStream) -> Vec<u8> { let mut v = vec![]; let _ = c.set_read_timeout(Some(Duration::from_secs(5))); let _ = c.read_to_end(&mut v); v }
