//! Rust view of shim/shim.h and of the per-case result area.

use std::ffi::c_void;

pub const C_SOCKET: i32 = 0;
pub const C_BIND: i32 = 1;
pub const C_LISTEN: i32 = 2;
pub const C_CHOWN: i32 = 3;
pub const C_CHMOD: i32 = 4;
pub const C_WAIT: i32 = 5;
pub const C_ACCEPT: i32 = 6;
pub const C_READ: i32 = 7;
pub const C_WRITE: i32 = 8;
pub const C_UNLINK: i32 = 9;
pub const C_OPEN: i32 = 10;
pub const C_STAT: i32 = 11;
pub const C_SHUTDOWN: i32 = 14;
pub const C_TTYWRITE: i32 = 15;
pub const C_FILEREAD: i32 = 16;
pub const C_OTHER: i32 = 19;
pub const NCLS: usize = 20;

pub const EV_SYNC: i32 = 1;
pub const EV_OP: i32 = 2;
pub const EV_DONE: i32 = 3;
pub const ACK_GO: u8 = 0;
pub const ACK_SIGINT: u8 = 1;
pub const ACK_ELAPSE: u8 = 2;
pub const ACK_SIGINT2: u8 = 3;

pub const MAXFAULT: usize = 8;
pub const MAXSNAP: usize = 512;
pub const MAXPRINT: usize = 16384;
pub const MAXREDIR: usize = 8;
pub const PRINTBUF: usize = 1 << 20;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct CFault { pub cls: i32, pub nth: i32, pub kind: i32, pub value: i32, pub hit: i32 }

#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Snap { pub cls: i32, pub op: i32, pub exists: u32, pub uid: u32, pub gid: u32, pub mode: u32 }

#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct CPrint { pub op: i32, pub level: i32, pub off: i32, pub len: i32, pub ret: i32 }

#[repr(C)]
pub struct Redir { pub from: [u8; 64], pub to: [u8; 192] }

#[repr(C)]
#[derive(Clone, Copy, Debug, Default)]
pub struct Ev { pub ty: i32, pub cls: i32, pub fd: i32, pub n: i32 }

#[repr(C)]
pub struct Ctrl {
    pub armed: i32,
    pub evfd: i32,
    pub op: i32,
    pub sync_mask: u32,
    pub nfault: i32, pub nredir: i32, pub nsnap: i32, pub nprint: i32, pub printlen: i32,
    pub print_mode: i32,
    pub handler_calls: i32,
    pub ncalls: i32,
    pub runaway: i32,
    pub counts: [i32; NCLS],
    pub sock_path: [u8; 256],
    pub root: [u8; 256],
    pub faults: [CFault; MAXFAULT],
    pub redirs: [Redir; MAXREDIR],
    pub snaps: [Snap; MAXSNAP],
    pub prints: [CPrint; MAXPRINT],
    pub printbuf: [u8; PRINTBUF],
}

pub const MAXOPS: usize = 2000;
pub const MAXFDS: usize = 24;

/// State of the sudo process, taken between operations.
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct PState {
    pub taken:    u32,
    pub umask:    u32,
    pub handler:  usize,
    pub sa_flags: i32,
    pub sa_mask:  u64,
    pub sigmask:  u64,
    pub nfds:     u32,            // open descriptors in all
    pub xfds:     u32,            // beyond those open at the start
    pub fds:      [i32; MAXFDS],  // the first of these
    pub noexec:   [u8; MAXFDS],   // lacks FD_CLOEXEC
}

#[repr(C)]
pub struct Res {
    pub done: i32,
    pub rets: [i32; MAXOPS],
    pub states: [PState; 8],      // 0: start, 1: after open, 2: after the last op, 3: after close, 4: after everything
    pub handler_addr: usize,
}

pub struct Shm { pub ctrl: *mut Ctrl, pub res: *mut Res }

impl Shm {
    pub fn new() -> Shm {
        unsafe {
            let m = |n: usize| -> *mut c_void {
                let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
                assert!(p != libc::MAP_FAILED);
                p
            };
            Shm { ctrl: m(std::mem::size_of::<Ctrl>()).cast(), res: m(std::mem::size_of::<Res>()).cast() }
        }
    }
    /// Clears everything but the bulky, length-governed arrays.
    pub fn reset(&mut self) {
        unsafe {
            let c = self.ctrl.cast::<u8>();
            let head = std::mem::offset_of!(Ctrl, snaps);
            std::ptr::write_bytes(c, 0, head);
            let r = self.res;
            (*r).done = 0;
            for s in &mut (*r).states { s.taken = 0 }
            (*r).rets = [i32::MIN; MAXOPS];
        }
    }
    pub fn c(&self) -> &mut Ctrl { unsafe { &mut *self.ctrl } }
    pub fn r(&self) -> &mut Res { unsafe { &mut *self.res } }
}

extern "C" {
    fn dlsym(h: *mut c_void, n: *const libc::c_char) -> *mut c_void;
}

fn sym(n: &str) -> *mut c_void {
    let c = std::ffi::CString::new(n).unwrap();
    let p = unsafe { dlsym(libc::RTLD_DEFAULT, c.as_ptr()) };
    assert!(!p.is_null(), "shim not preloaded ({})", n);
    p
}

pub fn attach(c: *mut Ctrl) { unsafe { std::mem::transmute::<_, extern "C" fn(*mut Ctrl)>(sym("shim_attach"))(c) } }
pub fn sync(ty: i32, cls: i32, n: i32) -> i32 { unsafe { std::mem::transmute::<_, extern "C" fn(i32, i32, i32) -> i32>(sym("shim_sync"))(ty, cls, n) } }
pub fn snap(cls: i32) { unsafe { std::mem::transmute::<_, extern "C" fn(i32)>(sym("shim_snap"))(cls) } }
pub fn printf_ptr() -> *mut c_void { sym("shim_printf") }
pub fn conv_ptr() -> *mut c_void { sym("shim_conversation") }
