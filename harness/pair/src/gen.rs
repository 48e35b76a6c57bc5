//! Generators for the parts of a case other than the environment.

use crate::ctrl::*;
use crate::engine::*;
use crate::env::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use vcore::gen::{cbyte, cstr, data, dict_str};
use vcore::B;

pub fn byte() -> BoxedStrategy<u8> {
    prop_oneof![3 => Just(b'y'), 1 => Just(b'Y'), 2 => Just(b'n'), 3 => select(b"N\n\r\0 \x1b1tTjzxX\x79\x59\xf9\xd9".to_vec()), 3 => any::<u8>()].boxed()
}
/// A pair's answer.
pub fn answer() -> BoxedStrategy<B> {
    prop_oneof![
        6 => byte().prop_map(|b| B(vec![b])),
        2 => (byte(), vec(any::<u8>(), 0..6)).prop_map(|(b, mut v)| { v.insert(0, b); B(v) }),
        1 => select(vec!["yes", "ny", " y", "\ny", "no", "YES\n", "n\ny\n"]).prop_map(B::from),
        1 => dict_str().prop_map(B),
    ].boxed()
}
pub fn yes() -> BoxedStrategy<Pair> { unhurried(prop_oneof![
        4 => Just(Pair::default()),
        1 => Just(Pair { read: vec![ReadAct::Send("Y".into())], ..Pair::default() }),
        1 => Just(Pair { wait: vec![WaitAct::Connect("y".into(), Then::Stay)], ..Pair::default() }),
        1 => vec(any::<u8>(), 1..5).prop_map(|mut v| { v.insert(0, b'y'); Pair { read: vec![ReadAct::Send(B(v))], ..Pair::default() } }),
    ].boxed()) }
/// The same pair, taking its time now and then.
pub fn unhurried(p: BoxedStrategy<Pair>) -> BoxedStrategy<Pair> {
    (p, prop_oneof![3 => Just(0usize), 1 => 1usize..3], prop_oneof![3 => Just(0usize), 1 => 1usize..3], prop_oneof![5 => Just(vec![]), 1 => vec(0u16..20, 1..4)], rival()).prop_map(|(mut p, w, r, slow, rival)| {
        for _ in 0..w { p.wait.insert(0, WaitAct::Elapse) }
        for _ in 0..r { p.read.insert(0, ReadAct::Elapse) }
        p.slow = slow;
        p.rival = rival;
        p
    }).boxed()
}
/// Somebody who connects too late to be the pair, and what they send.
fn rival() -> BoxedStrategy<Option<B>> { prop_oneof![7 => Just(None), 1 => prop_oneof![2 => Just(B::from("y")), 1 => answer(), 1 => Just(B::default())].prop_map(Some)].boxed() }
fn then() -> BoxedStrategy<Then> { prop_oneof![6 => Just(Then::Stay), 1 => Just(Then::Close), 1 => Just(Then::ShutWr)].boxed() }
/// Any behaviour of a pair, without signals.
pub fn any_pair() -> BoxedStrategy<Pair> {
    let wait = (prop_oneof![4 => Just(B::default()), 1 => answer()], then()).prop_map(|(b, t)| WaitAct::Connect(b, t));
    let read = prop_oneof![8 => answer().prop_map(ReadAct::Send), 1 => Just(ReadAct::Close), 1 => Just(ReadAct::ShutWr)];
    unhurried((wait, read).prop_map(|(w, r)| Pair { wait: vec![w], read: vec![r], ..Pair::default() }).boxed())
}

pub fn lit() -> BoxedStrategy<Buf> { data(300).prop_map(Buf::Lit).boxed() }
pub fn buf(big: u32) -> BoxedStrategy<Buf> {
    let most: Vec<u32> = vcore::dict::get().new_ints.iter().filter_map(|v| u32::try_from(*v).ok()).filter(|v| (1..=2 << 20).contains(v)).collect();
    let plain = plain_buf(big);
    // (a change's own numbers, as lengths: at most 2 MiB, so rarely)
    if most.is_empty() { plain } else { prop_oneof![40 => plain, 1 => (any::<u8>(), select(most)).prop_map(|(s, n)| Buf::Pat(s, n))].boxed() }
}
fn plain_buf(big: u32) -> BoxedStrategy<Buf> {
    prop_oneof![
        10 => lit(),
        1 => Just(Buf::Lit(B::default())),
        1 => (any::<u8>(), prop_oneof![3 => 1u32..5000, 2 => select(vec![4095u32, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537]), 1 => 1..=big, 1 => vcore::gen::len(big as usize).prop_map(|n| n as u32)]).prop_map(|(s, n)| Buf::Pat(s, n)),
    ].boxed()
}
pub fn op(big: u32) -> BoxedStrategy<Op> {
    prop_oneof![
        5 => buf(big).prop_map(Op::TtyOut),
        4 => buf(big).prop_map(Op::StdOut),
        4 => buf(big).prop_map(Op::StdErr),
        1 => lit().prop_map(Op::TtyIn),
        1 => lit().prop_map(Op::StdIn),
        2 => (dim(), dim()).prop_map(|(a, b)| Op::Winsize(a, b)),
        1 => any::<bool>().prop_map(Op::Version),
    ].boxed()
}
/// Histories of callbacks; rarely a very long one.
pub fn ops(big: u32, n: std::ops::Range<usize>) -> BoxedStrategy<Vec<Op>> {
    let usual = vcore::gen::echoed(vec(op(big), n).boxed(), elsewhere);
    prop_oneof![150 => usual, 1 => many(op(20), 1500)].boxed()
}
/// A few elements over and over.
pub fn many(o: BoxedStrategy<Op>, most: usize) -> BoxedStrategy<Vec<Op>> {
    (vec(o, 1..4), prop_oneof![vcore::gen::len(most), most / 8..=most]).prop_map(|(v, n)| v.iter().cloned().cycle().take(n).collect()).boxed()
}
/// The same on another stream.
pub fn elsewhere(o: Op) -> Op {
    match o {
        Op::TtyOut(b) => Op::StdOut(b), Op::StdOut(b) => Op::StdErr(b), Op::StdErr(b) => Op::TtyOut(b), Op::TtyIn(b) => Op::TtyOut(b), Op::StdIn(b) => Op::StdOut(b),
        Op::Winsize(a, b) => Op::Winsize(b, a), Op::Version(v) => Op::Version(!v),
    }
}
fn dim() -> BoxedStrategy<u32> { prop_oneof![4 => 1u32..300, 1 => any::<u32>(), 1 => select(vec![0u32, 1, 24, 80, 255, 256, 65535, 65536, u32::MAX])].boxed() }

/// The templates the repository ships.
fn samples() -> Vec<Vec<u8>> {
    let v: Vec<Vec<u8>> = ["user", "pair"].iter().filter_map(|n| std::fs::read(vcore::repo().join("sample/etc").join(format!("sudo_pair.prompt.{}", n))).ok()).collect();
    if v.is_empty() { vec![b"%U %C".to_vec()] } else { v }
}
/// A template.
pub fn template(max: usize) -> BoxedStrategy<B> {
    let tok = prop_oneof![
        5 => vec(cbyte(), 0..6),
        5 => select(b"bBCdhHgpuUW".to_vec()).prop_map(|d| vec![b'%', d]),
        2 => Just(b"%%".to_vec()),
        1 => any::<u8>().prop_map(|d| vec![b'%', d]),
        1 => vec(any::<u8>(), 0..8),
        1 => Just(b"%".to_vec()),
        1 => select(vec!["%s", "%n", "%%s%%n", "%5d", "\n", "\x1b[8;%H;%Wt", "\\n", "{}"]).prop_map(|s| s.as_bytes().to_vec()),
    ];
    prop_oneof![
        12 => vec(tok.clone(), 0..14).prop_map(|v| B(v.concat())),
        2 => vec(any::<u8>(), 0..60).prop_map(B),
        1 => vec(tok, 0..200).prop_map(|v| B(v.concat())),
        1 => select(samples()).prop_map(B),
        1 => (prop_oneof![1..=max, vcore::gen::len(max * 8)], select(vec![b"ab%".to_vec(), b"x".to_vec(), b"%%".to_vec(), b"%u,".to_vec(), b"\xff%".to_vec()])).prop_map(|(n, t)| B(t.iter().copied().cycle().take(n).collect())),
        1 => dict_str().prop_map(B),
    ].boxed()
}
pub fn template_any(max: usize) -> BoxedStrategy<Tpl> {
    prop_oneof![5 => template(max).prop_map(Tpl::File), 3 => template(max).prop_map(Tpl::Default), 1 => Just(Tpl::NoDefault), 1 => Just(Tpl::Missing), 1 => Just(Tpl::Dir)].boxed()
}
pub fn no_nul(t: Tpl) -> Tpl {
    let f = |b: B| B(b.0.into_iter().filter(|c| *c != 0).collect());
    match t { Tpl::File(b) => Tpl::File(f(b)), Tpl::Default(b) => Tpl::Default(f(b)), t => t }
}

pub fn dir_name() -> BoxedStrategy<Option<B>> {
    prop_oneof![
        3 => Just(Some(B::from("s"))),
        3 => Just(None),
        // up to what a socket's path has room for
        1 => "[a-zA-Z0-9 ._-]{20,57}x".prop_map(|s| Some(B::from(s))),
        1 => "[a-zA-Z0-9 ._-]{1,20}x".prop_map(|s| Some(B::from(s))),
        1 => Just(Some(B::from("a/b/c"))),
        1 => Just(Some(B::from("%u-é$x"))),
        1 => Just(Some(B(b"s\xff\xe9 %\x01d".to_vec()))),
    ].boxed()
}
pub fn log() -> BoxedStrategy<LogCfg> {
    prop_oneof![5 => Just(LogCfg::Absent), 2 => Just(LogCfg::Present), 1 => Just(LogCfg::Stale), 1 => (0u8..8).prop_map(LogCfg::Dies)].boxed()
}
/// A sound file system, default or configured.
pub fn fs_ok() -> BoxedStrategy<Fs> {
    let dir = prop_oneof![8 => Just(DirCfg::Ok), 1 => Just(DirCfg::Link { mode: 0o755, owner: 0, group: 0 })];
    let tty = prop_oneof![6 => Just(TtyCfg::File), 2 => Just(TtyCfg::None), 1 => Just(TtyCfg::Pty), 1 => Just(TtyCfg::Missing)];
    (dir_name(), prop_oneof![6 => Just(0u8), 1 => 1u8..3], prop_oneof![6 => Just(Pre::None), 1 => Just(Pre::Stale)], log(), dir, tty, prop_oneof![4 => Just(false), 1 => Just(true)]).prop_map(|(dir_name, slashes, pre, log, dir, tty, odd)| Fs { dir_name, slashes, pre, log, dir, tty, odd, ..Fs::default() }).boxed()
}

pub fn disp() -> BoxedStrategy<Disp> {
    (any::<bool>(), any::<bool>(), prop_oneof![2 => Just(0u32), 1 => any::<u32>()], prop::bool::weighted(0.3)).prop_map(|(restart, nodefer, mask, siginfo)| Disp::Handler { restart, nodefer, mask: mask & 0x7fff_fff0, siginfo }).boxed()
}
pub fn umask() -> BoxedStrategy<u32> { prop_oneof![3 => Just(0o22u32), 1 => Just(0u32), 1 => Just(0o777u32), 2 => 0u32..0o1000].boxed() }
pub fn proc_any() -> BoxedStrategy<Proc> {
    (umask(), prop_oneof![6 => disp(), 1 => Just(Disp::Default), 1 => Just(Disp::Ignore)], prop_oneof![2 => Just(0u32), 1 => any::<u32>()], prop_oneof![10 => Just(0u16), 3 => 1u16..40, 2 => 1000u16..1100], setuid(), prop::bool::weighted(0.3))
        .prop_map(|(umask, sigint, sm, fill, ids, twice)| Proc { umask, sigint, sigmask: sm & 0x7fff_fff0, fill, ids, twice, ..Proc::default() }).boxed()
}
/// As sudo has it: its own handler of Ctrl-C.
pub fn proc_ok() -> BoxedStrategy<Proc> { (proc_any(), disp()).prop_map(|(p, sigint)| Proc { sigint, ..p }).boxed() }
/// The ids of sudo: started by root, or set-uid root.
pub fn setuid() -> BoxedStrategy<(u32, u32)> { prop_oneof![1 => Just(0u32), 1 => select(vec![1u32, 1000, 5000])].prop_map(|r| (r, 0)).boxed() }

/// A failing step of opening a session.
pub fn step_fault() -> BoxedStrategy<Fault> {
    let f = |cls: i32, es: &'static [i32]| (Just(cls), select(es.to_vec()));
    prop_oneof![
        f(C_SOCKET, &[libc::EMFILE, libc::ENFILE, libc::ENOBUFS, libc::EACCES]),
        f(C_BIND, &[libc::EADDRINUSE, libc::EACCES, libc::ENOSPC, libc::EROFS, libc::ENOMEM]),
        f(C_LISTEN, &[libc::EADDRINUSE, libc::EOPNOTSUPP, libc::ENOMEM]),
        f(C_CHOWN, &[libc::EPERM, libc::EROFS, libc::EIO, libc::ENOENT]),
        f(C_CHMOD, &[libc::EPERM, libc::EROFS, libc::EIO, libc::ENOENT]),
        f(C_WAIT, &[libc::ENOMEM, libc::EINVAL, libc::EBADF]),
        f(C_ACCEPT, &[libc::EMFILE, libc::ENFILE, libc::ENOBUFS, libc::EPERM]),
        f(C_READ, &[libc::EIO, libc::ECONNRESET, libc::ETIMEDOUT]),
        f(C_WRITE, &[libc::EPIPE, libc::ECONNRESET, libc::EIO]),
        f(C_STAT, &[libc::EACCES, libc::EIO, libc::ENOENT]),
    ].prop_map(|(cls, value)| Fault { cls, nth: 0, short: false, value }).boxed()
}
/// Harmless irregularities of writing.
pub fn write_noise() -> BoxedStrategy<Vec<Fault>> {
    let one = (prop_oneof![3 => 0i32..12, 1 => 0i32..60], prop_oneof![2 => Just(None), 1 => Just(Some(1)), 2 => (1i32..200).prop_map(Some)])
        .prop_map(|(nth, s)| match s { None => Fault { cls: C_WRITE, nth, short: false, value: libc::EINTR }, Some(n) => Fault { cls: C_WRITE, nth, short: true, value: n } });
    prop_oneof![
        3 => Just(vec![]),
        3 => vec(one.clone(), 1..6),
        1 => (17i32..4000, one).prop_map(|(n, o)| vec![o, Fault { cls: C_WRITE, nth: -1, short: true, value: n }]),
    ].boxed()
}

pub fn who() -> BoxedStrategy<u32> { prop_oneof![6 => id(), 1 => Just(0)].boxed() }
pub fn any_str() -> BoxedStrategy<B> { cstr(60) }
