//! Drives a plugin through its C callbacks, as sudo would.

use crate::guard::Pool;
use crate::probe::*;
use serde::{Deserialize, Serialize};
use vcore::B;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Call { Log(u8, B), Win(u32, u32), Version(i32) }

pub struct Host<'a> { pub pool: &'a mut Pool, pub plugin: *const sudo_plugin::sys::io_plugin,
    /// Which of the message functions it gets.
    pub via: i32 }

impl Host<'_> {
    pub fn open(&mut self, a: &Args) -> i32 {
        let p = &mut *self.pool;
        p.reset();
        let settings = p.vector(&a.settings, a.low);
        let user = p.vector(&a.user_info, !a.low);
        let cmd = p.vector(&a.command_info, a.low);
        let argv = p.vector(&a.argv, a.low);
        // (a vector without entries may as well be none at all)
        let env = if a.env.is_empty() && a.low { std::ptr::null_mut() } else { p.vector(&a.env, !a.low) };
        let opts = a.options.as_ref().map_or(std::ptr::null_mut(), |o| p.vector(o, a.low));
        let mut err: *const libc::c_char = std::ptr::null();
        let printf: sudo_plugin::sys::sudo_printf_t = if a.no_printf { None } else { Some([vp_printf, vp_printf1, vp_printf2, vp_printf3][self.via as usize & 3]) };
        unsafe {
            let r = ((*self.plugin).open.expect("open"))(a.version, None, printf, settings.cast(), user.cast(), cmd.cast(), a.argv.len() as i32, argv.cast(), env.cast(), opts.cast(), &mut err);
            // sudo may reuse or free the vectors afterwards
            r
        }
    }
    pub fn call(&mut self, c: &Call) -> i32 {
        let mut err: *const libc::c_char = std::ptr::null();
        unsafe {
            let pl = &*self.plugin;
            match c {
                Call::Log(k, b) => {
                    let f = match k { 0 => pl.log_ttyin, 1 => pl.log_ttyout, 2 => pl.log_stdin, 3 => pl.log_stdout, _ => pl.log_stderr }.expect("log callback");
                    self.pool.reset();
                    let at = self.pool.put(b, 1, b.len() % 5 == 4);
                    f(at.cast(), b.len() as u32, &mut err)
                }
                Call::Win(l, c) => pl.change_winsize.expect("change_winsize")(*l, *c, &mut err),
                Call::Version(v) => pl.show_version.expect("show_version")(*v),
            }
        }
    }
    pub fn close(&mut self, a: i32, b: i32) { unsafe { (*self.plugin).close.expect("close")(a, b) } }
}
