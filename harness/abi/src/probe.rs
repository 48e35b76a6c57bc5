//! A plugin that records what reaches it, and the C host's functions.

use libc::{c_char, c_int, c_void};
use std::ffi::CString;
use sudo_plugin::prelude::*;

macro_rules! host {
    ($m:ident, $size:ident $align:ident $set:ident $get:ident $call:ident $seen:ident $ret:ident $provided:ident $konst:ident $mk:ident $major:ident $minor:ident) => {
        extern "C" {
            fn $size(s: c_int) -> usize;
            fn $align(s: c_int) -> usize;
            fn $set(s: c_int, p: *mut c_void, m: c_int, v: u64) -> c_int;
            fn $get(s: c_int, p: *const c_void, m: c_int, v: *mut u64, len: *mut usize, off: *mut usize) -> c_int;
            fn $call(what: *const c_char, p: *mut c_void, w: *const u64, e: *mut u64, sig: *mut c_char) -> u64;
            fn $provided(what: *const c_char) -> *mut c_void;
            fn $konst(n: *const c_char) -> i64;
            fn $mk(a: u32, b: u32) -> u32;
            fn $major(v: u32) -> u32;
            fn $minor(v: u32) -> u32;
            static mut $seen: [u64; 8];
            static mut $ret: u64;
        }
        pub const $m: Host = Host { size: $size, align: $align, set: $set, get: $get, call: $call, provided: $provided, konst: $konst, mk: $mk, major: $major, minor: $minor,
            seen: std::ptr::addr_of_mut!($seen), ret: std::ptr::addr_of_mut!($ret) };
    };
}
#[derive(Clone, Copy)]
pub struct Host {
    pub size: unsafe extern "C" fn(c_int) -> usize,
    pub align: unsafe extern "C" fn(c_int) -> usize,
    pub set: unsafe extern "C" fn(c_int, *mut c_void, c_int, u64) -> c_int,
    pub get: unsafe extern "C" fn(c_int, *const c_void, c_int, *mut u64, *mut usize, *mut usize) -> c_int,
    call: unsafe extern "C" fn(*const c_char, *mut c_void, *const u64, *mut u64, *mut c_char) -> u64,
    provided: unsafe extern "C" fn(*const c_char) -> *mut c_void,
    konst: unsafe extern "C" fn(*const c_char) -> i64,
    pub mk: unsafe extern "C" fn(u32, u32) -> u32,
    pub major: unsafe extern "C" fn(u32) -> u32,
    pub minor: unsafe extern "C" fn(u32) -> u32,
    pub seen: *mut [u64; 8],
    pub ret: *mut u64,
}
host!(PIN, pin_size pin_align pin_set pin_get pin_call pin_seen pin_ret pin_provided pin_konst pin_mkversion pin_major pin_minor);
host!(REP, rep_size rep_align rep_set rep_get rep_call rep_seen rep_ret rep_provided rep_konst rep_mkversion rep_major rep_minor);

fn c(s: &str) -> CString { CString::new(s).expect("a name") }
impl Host {
    /// Calls a member of the structure at p; its answer, the arguments as
    /// converted to their C types, and the C signature.
    pub fn invoke(&self, what: &str, p: *mut c_void, w: &[u64]) -> (u64, Vec<u64>, String) {
        let mut e = [0u64; 16];
        let mut sig = [0u8; 64];
        let mut args = [0u64; 16];
        args[..w.len().min(16)].copy_from_slice(&w[..w.len().min(16)]);
        let r = unsafe { (self.call)(c(what).as_ptr(), p, args.as_ptr(), e.as_mut_ptr(), sig.as_mut_ptr().cast()) };
        let n = sig.iter().position(|b| *b == 0).unwrap_or(0);
        let sig = String::from_utf8_lossy(&sig[..n]).into_owned();
        let k = sig.find('>').unwrap_or(0);
        (r, e[..k].to_vec(), sig)
    }
    pub fn given(&self, what: &str) -> *mut c_void { unsafe { (self.provided)(c(what).as_ptr()) } }
    pub fn constant(&self, n: &str) -> i64 { unsafe { (self.konst)(c(n).as_ptr()) } }
    pub fn read(&self, s: usize, p: *const c_void, m: usize) -> (u64, usize, usize) {
        let (mut v, mut len, mut off) = (0, 0, 0);
        let ok = unsafe { (self.get)(s as c_int, p, m as c_int, &mut v, &mut len, &mut off) };
        assert!(ok == 1, "member {} of {}", m, s);
        (v, len, off)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Event { Open { version: String, tags: Vec<Option<Vec<u8>>>, argv: Vec<Vec<u8>> }, Log(u8, Vec<u8>), Win(u64, u64), Version(bool), Close(i32, i32) }
pub struct Rec { pub events: Vec<Event>, pub prints: Vec<(i32, Vec<u8>)>, pub fail: bool }
static mut REC: Rec = Rec { events: vec![], prints: vec![], fail: false };
pub fn rec() -> &'static mut Rec { unsafe { &mut *std::ptr::addr_of_mut!(REC) } }

#[no_mangle]
pub extern "C" fn vp_record(_via: c_int, level: c_int, buf: *const u8, len: c_int) -> c_int {
    let r = rec();
    r.prints.push((level, unsafe { std::slice::from_raw_parts(buf, len as usize) }.to_vec()));
    if r.fail { -1 } else { len }
}
extern "C" { pub fn vp_printf(level: c_int, fmt: *const c_char, ...) -> c_int; }

pub struct Probe;
fn saw(e: Event) -> Result<(), Error> { rec().events.push(e); Ok(()) }
impl IoPlugin for Probe {
    type Error = Error;
    const NAME: &'static str = "abi_probe";
    const IGNORE_IOLOG_HINTS: bool = true;
    fn open(e: &'static IoEnv) -> Result<Self, Error> {
        let tags = [e.settings.raw.get_bytes(b"tag"), e.user_info.raw.get_bytes(b"tag"), e.command_info.raw.get_bytes(b"tag"), e.user_env.get_bytes(b"tag"), e.plugin_options.get_bytes(b"tag")].iter().map(|t| t.map(<[u8]>::to_vec)).collect();
        saw(Event::Open { version: e.api_version.to_string(), tags, argv: e.cmdline.iter().map(|a| a.as_bytes().to_vec()).collect() })?;
        Ok(Probe)
    }
    fn show_version(_: &IoEnv, verbose: bool) { rec().events.push(Event::Version(verbose)) }
    fn close(self, a: i32, b: i32) { rec().events.push(Event::Close(a, b)) }
    fn log_ttyin (&self, d: &[u8]) -> Result<(), Error> { saw(Event::Log(0, d.to_vec())) }
    fn log_ttyout(&self, d: &[u8]) -> Result<(), Error> { saw(Event::Log(1, d.to_vec())) }
    fn log_stdin (&self, d: &[u8]) -> Result<(), Error> { saw(Event::Log(2, d.to_vec())) }
    fn log_stdout(&self, d: &[u8]) -> Result<(), Error> { saw(Event::Log(3, d.to_vec())) }
    fn log_stderr(&self, d: &[u8]) -> Result<(), Error> { saw(Event::Log(4, d.to_vec())) }
    fn change_winsize(&self, l: u64, c: u64) -> Result<(), Error> { saw(Event::Win(l, c)) }
}
sudo_io_plugin! { abi_probe: Probe }
pub fn plugin() -> *mut c_void { std::ptr::addr_of_mut!(abi_probe).cast() }

/// A NULL-terminated vector, kept alive by the caller.
pub struct Vector { _s: Vec<CString>, p: Vec<*const c_char> }
impl Vector {
    pub fn new(v: &[Vec<u8>]) -> Vector {
        let s: Vec<CString> = v.iter().map(|x| CString::new(x.iter().copied().filter(|b| *b != 0).collect::<Vec<u8>>()).expect("no NUL")).collect();
        let mut p: Vec<*const c_char> = s.iter().map(|x| x.as_ptr()).collect();
        p.push(std::ptr::null());
        Vector { _s: s, p }
    }
    pub fn at(&self) -> u64 { self.p.as_ptr() as u64 }
}

/// A loaded plugin and the descriptor's address and size in its file.
pub fn load(path: &std::path::Path, name: &str) -> Result<(*mut c_void, usize), String> {
    extern "C" { fn dladdr1(a: *const c_void, i: *mut libc::Dl_info, extra: *mut *mut c_void, flags: c_int) -> c_int; }
    unsafe {
        let f = c(path.to_str().expect("path"));
        let h = libc::dlopen(f.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
        if h.is_null() { return Err(format!("cannot load {}", path.display())) }
        let p = libc::dlsym(h, c(name).as_ptr());
        if p.is_null() { return Err(format!("{} exports no {}", path.display(), name)) }
        let mut i: libc::Dl_info = std::mem::zeroed();
        let mut sym: *mut c_void = std::ptr::null_mut();
        let ok = dladdr1(p, &mut i, &mut sym, 1);
        let size = if ok != 0 && !sym.is_null() { (*sym.cast::<libc::Elf64_Sym>()).st_size as usize } else { usize::MAX };
        Ok((p, size))
    }
}
