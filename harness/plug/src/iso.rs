//! Runs a case in a process of its own, so that one that takes the process
//! down, or never returns, is an ordinary (and shrinkable) failure.

use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use vcore::{Outcome, Verdict};

#[derive(Serialize, Deserialize)]
struct Wire { v: u8, m: String, k: String, nt: bool, c: Vec<String> }

pub fn isolated(f: impl FnOnce() -> Outcome) -> Outcome {
    let mut fds = [0i32; 2];
    let died = |m: String| { let mut o = Outcome::new(false); o.fail(m); o };
    unsafe {
        assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let cpu = libc::rlimit { rlim_cur: 20, rlim_max: 25 };
            libc::setrlimit(libc::RLIMIT_CPU, &cpu);
            libc::setrlimit(libc::RLIMIT_CORE, &libc::rlimit { rlim_cur: 0, rlim_max: 0 });
            libc::alarm(120);
            let null = libc::open(b"/dev/null\0".as_ptr().cast(), libc::O_RDWR);
            libc::dup2(null, 2);
            std::panic::set_hook(Box::new(|_| ()));
            let o = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|e| {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string())).unwrap_or_default();
                let mut o = Outcome::new(false);
                o.inconclusive(format!("harness panic: {}", m));
                o
            });
            let (v, m, k) = match o.verdict {
                Verdict::Pass => (0, String::new(), String::new()),
                Verdict::Fail(m) => (1, m, String::new()),
                Verdict::Known(k, m) => (2, m, k),
                Verdict::Inconclusive(m) => (3, m, String::new()),
            };
            let js = serde_json::to_vec(&Wire { v, m, k, nt: o.nontrivial, c: o.classes }).unwrap();
            let mut p = std::fs::File::from_raw_fd(fds[1]);
            let ok = p.write_all(&js).is_ok();
            libc::_exit(if ok { 0 } else { 3 });
        }
        libc::close(fds[1]);
        let mut p = std::fs::File::from_raw_fd(fds[0]);
        let mut js = vec![];
        let _ = p.read_to_end(&mut js);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 { assert_eq!(*libc::__errno_location(), libc::EINTR) }
        if libc::WIFSIGNALED(st) {
            return match libc::WTERMSIG(st) {
                libc::SIGXCPU | libc::SIGALRM => died("it never returned".into()),
                libc::SIGKILL => { let mut o = Outcome::new(false); o.inconclusive("killed"); o }
                s => died(format!("the process was killed by signal {}", s)),
            }
        }
        match serde_json::from_slice::<Wire>(&js) {
            Ok(w) => {
                let verdict = match w.v { 0 => Verdict::Pass, 1 => Verdict::Fail(w.m), 2 => Verdict::Known(w.k, w.m), _ => Verdict::Inconclusive(w.m) };
                Outcome { verdict, nontrivial: w.nt, classes: w.c }
            }
            Err(_) => died(format!("the process ended by itself (status {:x})", st)),
        }
    }
}
