//! The properties decided with this engine.

use crate::ctrl::*;
use crate::engine::*;
use crate::env::*;
use crate::gen::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use vcore::bytes::show;
use vcore::{Check, Outcome, Tier, B};

const DEF_USER: &[u8] = b"%B %u %p\n";
const DEF_PAIR: &[u8] = b"%U@%h:%d$ %C\ny/n? [n]: ";

const DOMAIN: &[&str] = &[
    "inputs are ones sudo can send: NULL-terminated vectors, non-empty group lists, plugin API >= 1.9, decimal ids other than -1 as targets",
    "the binary_path option is a normalised absolute path",
    "the harness plays sudo by calling the exported plugin structure of the freshly built libsudo_pair.so (debug and release)",
    "system calls are observed and failed at the libc boundary (LD_PRELOAD)",
];

fn short(b: &[u8]) -> String { if b.len() > 300 { format!("{}... ({} bytes)", show(&b[..300]), b.len()) } else { show(b) } }
fn diff(what: &str, got: &[u8], want: &[u8]) -> String {
    let at = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    format!("{}: got {} bytes, expected {}; first difference at {}: got ...{} expected ...{}", what, got.len(), want.len(), at, short(&got[at.min(got.len())..]), short(&want[at.min(want.len())..]))
}

pub fn user_prompt(c: &Case) -> Vec<u8> { c.env.expand(tpl_text(&c.fs.user_tpl).unwrap_or(DEF_USER)) }
pub fn pair_prompt(c: &Case) -> Vec<u8> { c.env.expand(tpl_text(&c.fs.pair_tpl).unwrap_or(DEF_PAIR)) }

/// The process under test must have come to an end by itself.
fn health(r: &Run, o: &mut Outcome) -> bool {
    match r.end {
        End::Exit(0)  => true,
        End::Exit(79) => { o.inconclusive("the sudo process could not take on its ids"); false }
        End::Exit(78) => { o.inconclusive("harness connection lost"); false }
        End::Exit(77) => { o.fail("the plugin never stops calling the system or printing"); false }
        End::Exit(n)  => { o.fail(format!("the plugin ended the sudo process with exit({})", n)); false }
        End::Signal(libc::SIGKILL) => { o.inconclusive("killed from outside"); false }
        End::Signal(s) => { o.fail(format!("the plugin crashed sudo with signal {}", s)); false }
        End::Hang     => { o.fail("the plugin hangs: it neither returns nor waits for the pair"); false }
        End::NoSocket => { o.fail("the plugin waits for a pair but no socket can be reached at <socket_dir>/<uid>.<pid>.sock"); false }
    }
}
/// Nothing of the session goes to anybody but the pair.
fn only_the_pair(r: &Run, o: &mut Outcome) { o.check(r.rival_rx.is_empty(), || format!("somebody who connected after the pair was sent {}", short(&r.rival_rx))); }
fn allowed(r: &Run) -> bool { r.open >= 0 }
fn approved(r: &Run) -> bool { r.connected && matches!(r.first_byte, Some(b'y' | b'Y')) }

fn mirrored(c: &Case, op: &Op) -> Option<Vec<u8>> {
    match op {
        Op::TtyOut(b) if c.env.iolog[4] == Some(true) => Some(b.bytes()),
        Op::StdOut(b) if c.env.iolog[1] == Some(true) => Some(b.bytes()),
        Op::StdErr(b) if c.env.iolog[2] == Some(true) => Some(b.bytes()),
        Op::Winsize(l, w) => Some(format!("\x1b[8;{};{}t", l, w).into_bytes()),
        _ => None,
    }
}

/// An exempt session leaves nobody a trace.
fn check_exempt(c: &Case, r: &Run, o: &mut Outcome) {
    o.check(r.open == 1, || format!("an exempt session ({:?}) was not opened: {}", c.env.exemptions(), r.open));
    o.check(r.waits == 0 && !r.connected, || "an exempt session waits for a pair".into());
    o.check(r.before == r.after_open && r.before == r.after && r.snaps.iter().all(|s| s.exists == 0 || c.fs.pre != Pre::None), || "an exempt session touched the socket directory".into());
    o.check(r.tty.is_empty() && !r.prints.iter().any(|p| p.op == 0), || "an exempt session prompts the user".into());
    for (i, x) in r.rets.iter().enumerate() {
        if r.open == 1 { o.check(*x == 1, || format!("an exempt session's callback {:?} returned {}", c.ops[i], x)) }
    }
}

macro_rules! check {
    ($t:ident, $id:expr, $rule:expr, $quick:expr, $thorough:expr, |$tier:ident| $strat:expr, |$w:ident, $c:ident, $o:ident| $body:block) => {
        pub struct $t(pub Option<World>);
        impl Check for $t {
            type Case = Case;
            fn id(&self) -> &'static str { $id }
            fn rule(&self) -> &'static str { $rule }
            fn assumptions(&self) -> Vec<&'static str> { DOMAIN.to_vec() }
            fn cases(&self, t: Tier) -> u64 { t.pick($quick, $thorough) }
            fn strategy(&self, $tier: Tier) -> BoxedStrategy<Case> { $strat.boxed() }
            fn run(&mut self, $c: &Case) -> Outcome {
                let $w = self.0.get_or_insert_with(World::new);
                let mut $o = Outcome::new(true);
                $body
                $o
            }
        }
    };
}

// ---- C01 ----
check!(C01, "C01", "the session needs a pair, or is exempt for exactly one reason", 40000, 1_200_000,
    |_t| (prop_oneof![5 => any_env(), 3 => paired_env(), 4 => exempt_env()], fs_ok(), any::<bool>(), ops(400, 0..5), prop_oneof![2 => yes(), 1 => any_pair()], proc_ok())
        .prop_map(|(env, fs, release, ops, pair, proc_)| Case { fs, release, ops, pair, proc_, ..Case::new(env) }),
    |w, c, o| {
        let r = run(w, c);
        let ex = c.env.exemptions();
        o.nontrivial = ex.len() <= 1;
        for e in &ex { o.class(format!("exempt: {}", e)) }
        o.class_if(ex.is_empty(), "needs a pair");
        o.class_if(ex.len() == 1, "exempt for one reason only");
        if !health(&r, &mut o) { return o }
        if !ex.is_empty() {
            check_exempt(c, &r, &mut o);
        } else {
            let t = c.env.target();
            o.class(format!("target {:?}", t).split('(').next().unwrap().to_string());
            o.check(!allowed(&r) || approved(&r), || format!("no exemption applies, yet the session opened ({}) without a pair's approval (waits {}, answer {:?})", r.open, r.waits, r.first_byte));
            let ok = matches!(t, Target::User(_) | Target::Group(_));
            let friendly = approved(&r) && !c.pair.leaves();
            o.check(!(ok && r.waits == 0), || "no pair was asked".into());
            o.check(!(ok && friendly) || r.open == 1, || format!("approved by the pair, yet refused: {}", r.open));
        }
    });

// ---- C02 ----
fn must_deny(c: &Case, r: &Run) -> Option<String> {
    c.faults.iter().zip(&r.hits).find(|(f, h)| **h > 0 && f.nth == 0 && !f.short && f.value != libc::EINTR
        && (f.cls != C_STAT) && (f.cls != C_WRITE || !pair_prompt(c).is_empty()) && (f.cls != C_UNLINK || c.fs.pre == Pre::Stale)).map(|(f, _)| format!("{:?}", f))
}
check!(C02, "C02", "the session needs a pair and either the first byte is not a plain y, the pair leaves, or a system call fails", 40000, 1_200_000,
    |_t| (prop_oneof![3 => plain_paired(), 1 => paired_env()], fs_ok(), any::<bool>(), any_pair(), prop_oneof![3 => Just(vec![]), 2 => step_fault().prop_map(|f| vec![f]),
          1 => Just(vec![Fault { cls: C_UNLINK, nth: 0, short: false, value: libc::EACCES }]), 1 => write_noise()], template(3000), ops(400, 0..3), proc_ok())
        .prop_map(|(env, mut fs, release, pair, faults, t, ops, proc_)| { fs.pair_tpl = Tpl::File(t); Case { fs, release, ops, pair, faults, proc_, ..Case::new(env) } }),
    |w, c, o| {
        let r = run(w, c);
        let prompt = pair_prompt(c);
        let deny = must_deny(c, &r);
        o.nontrivial = !matches!(r.first_byte, Some(b'y')) || !c.faults.is_empty() || r.pair_closed;
        o.class_if(r.pair_closed, "pair leaves or half-closes");
        o.class_if(deny.is_some(), "a needed step fails");
        if r.hits.iter().any(|h| *h > 0) { o.class(format!("fault class {}", c.faults[r.hits.iter().position(|h| *h > 0).unwrap()].cls)) }
        o.class_if(allowed(&r), "opened");
        o.class_if(r.first_byte.is_some() && !approved(&r), "answered otherwise");
        o.class_if(r.elapsed > 0, "a long time passes");
        o.class_if(r.rival, "somebody else connects after the pair");
        if !health(&r, &mut o) { return o }
        only_the_pair(&r, &mut o);
        if allowed(&r) {
            o.check(r.open == 1, || format!("the session is neither opened nor refused but left unmonitored: {}", r.open));
            o.check(approved(&r), || format!("opened although the pair's first byte was {:?} (connected: {})", r.first_byte, r.connected));
            if let Some(d) = &deny { o.fail(format!("opened although a step failed: {}", d)) }
            // a pair that half-closes its reading end sees nothing, any other saw it all
            o.check(r.rx.len() >= prompt.len() && r.rx[..prompt.len()] == prompt[..], || diff("opened before the whole prompt was sent", r.rx_open(), &prompt));
        } else {
            let closed = c.pair.leaves();
            let noise = r.hits.iter().zip(&c.faults).any(|(h, f)| *h > 0 && !f.short && f.cls != C_WRITE);
            let wfault = r.hits.iter().zip(&c.faults).any(|(h, f)| *h > 0 && f.cls == C_WRITE && !f.short && f.value != libc::EINTR);
            o.check(!approved(&r) || closed || noise || wfault, || format!("refused ({}) although a pair answered y and nothing failed", r.open));
            let waiting = r.first_byte.is_none() && !r.pair_closed && r.sigints == 0 && !closed;
            o.check(!waiting || r.hits.iter().any(|h| *h > 0), || format!("refused ({}) without waiting for the pair to {}; a long time passed {} times", r.open, if r.connected { "answer" } else { "connect" }, r.elapsed));
        }
    });

// ---- C03 ----
fn sock_ok(s: &Snap, t: Target) -> Result<(), String> {
    if s.exists == 0 { return Ok(()) }
    let ty = s.mode & libc::S_IFMT;
    if ty != libc::S_IFSOCK { return Ok(()) }
    let bad = |m: &str| Err(format!("{}: owner {} group {} mode {:o}, target {:?}", m, s.uid, s.gid, s.mode & 0o7777, t));
    if s.mode & 0o002 != 0 { return bad("anybody can connect") }
    let (tu, tg) = match t { Target::User(u) => (Some(u), None), Target::Group(g) => (None, Some(g)), _ => (None, None) };
    if s.uid != 0 && Some(s.uid) != tu { return bad("the socket belongs to somebody other than root or the target user") }
    if s.mode & 0o020 != 0 && Some(s.gid) != tg { return bad("members of another group can connect") }
    Ok(())
}
fn permitted(w: Who, t: Target) -> bool {
    w.uid == 0 || match t { Target::User(u) => w.uid == u, Target::Group(g) => w.gid == g || w.sup == g, _ => false }
}
pub struct C03(pub Option<World>);
impl Check for C03 {
    type Case = Case;
    fn id(&self) -> &'static str { "C03" }
    fn rule(&self) -> &'static str { "the session needs a pair, and an identity without the right tried to connect, or the request was for both user and group" }
    fn assumptions(&self) -> Vec<&'static str> { DOMAIN.to_vec() }
    fn cases(&self, t: Tier) -> u64 { t.pick(40000, 1_200_000) }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Case> {
        let both = (any_env(), any_str()).prop_map(|(e, g)| { let mut e = e.paired(PairKind::User); e.runas_group = Some(g); e });
        let implicit = any_env().prop_map(|e| { let mut e = e.paired(PairKind::Group); e.runas_group = None; e });
        let env = prop_oneof![4 => paired_env(), 3 => plain_paired(), 2 => both, 1 => implicit];
        let probes = vec((any::<u8>(), who(), who(), who()), 1..6);
        (env, fs_ok(), any::<bool>(), probes, umask(), prop_oneof![2 => yes(), 1 => any_pair()], prop_oneof![5 => Just(vec![]), 1 => step_fault().prop_map(|f| vec![f])], select(vec![0o755u32, 0o711, 0o1755, 0o2755]), (who(), proc_ok()))
            .prop_map(|(env, mut fs, release, probes, umask, pair, faults, mode, (dgid, proc_))| {
                let t = env.target();
                // identities related to the session are the interesting ones
                let mut probes: Vec<Who> = probes.into_iter().map(|(k, u, g, s)| {
                    let mut w = Who { uid: u, gid: g, sup: if k & 128 != 0 { s } else { u32::MAX } };
                    match k & 7 { 0 | 1 => w = Who { uid: env.uid, gid: env.gid, sup: env.groups[0] }, 2 => w.gid = env.t_egid(), 3 => w.sup = env.t_egid(), 4 => w.uid = env.runas_uid, 5 => w.gid = env.gid, _ => () }
                    if w.uid == u32::MAX { w.uid = 1 }
                    if w.gid == u32::MAX { w.gid = 1 }
                    w
                }).filter(|w| !permitted(*w, t)).collect();
                probes.push(match t {
                    Target::User(u)  => Who { uid: u, gid: env.gid.min(u32::MAX - 1), sup: u32::MAX },
                    Target::Group(g) => Who { uid: env.uid.min(u32::MAX - 1).max(1), gid: g, sup: u32::MAX },
                    _                => Who { uid: 0, gid: 0, sup: u32::MAX },
                });
                fs.dir = DirCfg::Perm { mode, owner: 0, group: if dgid == u32::MAX { 0 } else { dgid } };
                Case { fs, release, pair, faults, probes, proc_: Proc { umask, ..proc_ }, ..Case::new(env) }
            }).boxed()
    }
    fn run(&mut self, c: &Case) -> Outcome {
        let w = self.0.get_or_insert_with(World::new);
        let mut o = Outcome::new(true);
        let r = run(w, c);
        let t = c.env.target();
        o.nontrivial = !c.env.exempt() && (t == Target::Both || r.probes.len() > 1);
        o.class(format!("target {:?}", t).split('(').next().unwrap().to_string());
        o.class_if(r.probes.iter().any(|p| p.1.is_some()), "unauthorised identity refused");
        o.class_if(r.probes.last().map_or(false, |p| p.1.is_none()), "authorised identity connected");
        if !health(&r, &mut o) { return o }
        let pre_ino = r.before.get(c.env.sock_name().as_bytes()).map(|n| (n.uid, n.gid, n.mode));
        for s in &r.snaps {
            // the leftover of an earlier session, before it is replaced
            if s.exists == 1 && pre_ino == Some((s.uid, s.gid, s.mode & 0o7777)) { continue }
            if let Err(e) = sock_ok(s, t) { o.fail(e); }
        }
        if t == Target::Both || t == Target::Neither {
            o.check(r.snaps.iter().all(|s| s.exists == 0 || pre_ino.is_some()), || format!("a socket was created for a {:?} request", t));
            o.check(!allowed(&r) && r.waits == 0, || format!("a {:?} request was not refused outright: {} after {} waits", t, r.open, r.waits));
        }
        for (who, err) in &r.probes {
            let can = permitted(*who, t);
            o.check(can || err.is_some(), || format!("{:?} could connect to the socket of a session with target {:?} (socket {:?})", who, t, r.sock_at_wait));
            o.check(!can || err.is_none(), || format!("{:?} could not connect (errno {:?}) to the socket of a session with target {:?} (socket {:?})", who, err, t, r.sock_at_wait));
        }
        o
    }
}

// ---- C04 ----
fn dircfg() -> BoxedStrategy<DirCfg> {
    let mode = prop_oneof![
        3 => select(vec![0o755u32, 0o700, 0o711, 0o750, 0o1755]),
        3 => select(vec![0o775u32, 0o757, 0o777, 0o1777, 0o770, 0o722, 0o720, 0o702, 0o2775, 0o4757]),
        2 => 0u32..0o10000,
    ];
    prop_oneof![
        3 => Just(DirCfg::Ok),
        6 => (mode, prop_oneof![3 => Just(0u32), 2 => id()], prop_oneof![2 => Just(0u32), 1 => id()]).prop_map(|(mode, o, g)| DirCfg::Perm { mode, owner: if o == u32::MAX { 1 } else { o }, group: if g == u32::MAX { 1 } else { g } }),
        1 => (prop_oneof![2 => Just(0o755u32), 1 => Just(0o777), 1 => 0u32..0o10000], prop_oneof![3 => Just(0u32), 1 => id()]).prop_map(|(mode, o)| DirCfg::Link { mode, owner: if o == u32::MAX { 1 } else { o }, group: 0 }),
        1 => Just(DirCfg::Missing), 1 => Just(DirCfg::File), 1 => Just(DirCfg::Socket), 1 => Just(DirCfg::Dangling),
    ].boxed()
}
fn pre() -> BoxedStrategy<Pre> {
    prop_oneof![
        4 => Just(Pre::None), 2 => Just(Pre::Stale), 2 => Just(Pre::Live), 2 => vec(any::<u8>(), 0..10).prop_map(|v| Pre::File(B(v))), 1 => Just(Pre::Dir), 1 => Just(Pre::Fifo),
        1 => Just(Pre::LinkFile), 1 => Just(Pre::LinkDangling), 1 => Just(Pre::LinkDir),
    ].boxed()
}
fn dir_secure(c: &Case) -> bool { c.fs.dir.perm().map_or(false, |(mode, owner)| owner == c.proc_.ids.1 && mode & 0o22 == 0) }
fn pre_socket(p: &Pre) -> bool { matches!(p, Pre::Stale | Pre::Live) }
check!(C04, "C04", "the directory is insecure or not a directory, or something already exists at the socket path", 32000, 900_000,
    |_t| (prop_oneof![2 => plain_paired(), 1 => paired_env()], dir_name(), dircfg(), pre(), vec((any::<u32>(), any::<u8>()), 0..4), any::<bool>(), prop_oneof![2 => yes(), 1 => any_pair()], umask(), (prop_oneof![2 => setuid(), 1 => (select(vec![0u32, 1000, 5000]), select(vec![1u32, 1000, 5000]))], prop_oneof![2 => Just(0u8), 1 => Just(1), 1 => Just(2)]))
        .prop_map(|(env, dir_name, mut dir, pre, decoys, release, pair, umask, (ids, same))| {
            // the directory belongs to the user sudo runs as, or to the one who started it
            if let (DirCfg::Perm { owner, .. } | DirCfg::Link { owner, .. }, true) = (&mut dir, same > 0) { *owner = if same == 1 { ids.1 } else { ids.0 } }
            let decoys = decoys.into_iter().map(|(n, k)| match k & 3 {
                0 => B::from(format!("{}.{}.sock", env.uid, n)),
                1 => B::from(format!("{}.{}.sock", n, env.pid)),
                2 => B::from(format!("{}.{}.sock.bak", env.uid, env.pid)),
                _ => B::from(format!("{}.sock", n)),
            }).collect();
            let dir_name = if dir.perm().is_some() { dir_name } else { dir_name.map(|_| B::from("s")) };
            Case { fs: Fs { dir_name, dir, pre, decoys, ..Fs::default() }, release, pair, proc_: Proc { umask, ids, ..Proc::default() }, ..Case::new(env) }
        }),
    |w, c, o| {
        let r = run(w, c);
        let name = c.env.sock_name().into_bytes();
        let secure = dir_secure(c);
        let existing = secure && c.fs.pre != Pre::None;
        o.nontrivial = !secure || existing;
        o.class(match c.fs.dir.perm() { Some((mode, owner)) => format!("dir owner {} mode &022 {}", if owner == c.proc_.ids.1 { "sudo's" } else { "foreign" }, if mode & 0o22 == 0 { "clear" } else { "set" }), None => format!("dir {:?}", c.fs.dir) });
        o.class_if(matches!(c.fs.dir, DirCfg::Link { .. }), "through a link");
        o.class_if(c.proc_.ids.0 != c.proc_.ids.1, "set-uid");
        if existing { o.class(format!("existing {:?}", c.fs.pre).split('(').next().unwrap().to_string()) }
        if !health(&r, &mut o) { return o }
        let has_pre = r.before.contains_key(&name);
        if !secure {
            o.check(!allowed(&r), || format!("opened ({}) with an insecure socket directory {:?}", r.open, c.fs.dir));
            o.check(r.waits == 0, || "waits for a pair in an insecure socket directory".into());
            o.check(r.before == r.after_open && r.before == r.after, || format!("an insecure socket directory {:?} was modified: {:?} to {:?}", c.fs.dir, r.before.keys().map(|k| show(k)).collect::<Vec<_>>(), r.after.keys().map(|k| show(k)).collect::<Vec<_>>()));
            if !has_pre { o.check(r.snaps.iter().all(|s| s.exists == 0), || "a socket was created in an insecure directory".into()) }
        } else if existing && !pre_socket(&c.fs.pre) {
            o.check(!allowed(&r), || format!("opened ({}) although {:?} exists at the socket path", r.open, c.fs.pre));
            o.check(r.waits == 0, || "waits for a pair although the path is taken".into());
            o.check(r.before == r.after_open && r.before == r.after, || format!("the foreign file {:?} (or another) was touched: {:?} to {:?}", c.fs.pre, r.before, r.after));
        } else {
            o.check(r.waits >= 1, || format!("no pair is asked in a sound directory {:?} (existing {:?}): {}", c.fs.dir, c.fs.pre, r.open));
            o.check(r.sock_at_wait.as_ref().map_or(false, |n| n.kind == libc::S_IFSOCK), || "no socket at <socket_dir>/<uid>.<pid>.sock while waiting".into());
            let mut want = r.before.clone();
            let _ = want.remove(&name);
            o.check(r.after_open == want && r.after == want, || format!("other files changed: {:?} to {:?}", r.before, r.after));
            if approved(&r) && c.pair.wait.is_empty() { o.check(r.open == 1, || format!("approved, yet refused: {}", r.open)) }
        }
    });

// ---- C05 ----
fn any_pair_sig() -> BoxedStrategy<Pair> {
    prop_oneof![
        4 => any_pair(),
        1 => Just(Pair { wait: vec![WaitAct::Sigint], ..Pair::default() }),
        1 => Just(Pair { read: vec![ReadAct::Sigint], ..Pair::default() }),
    ].boxed()
}
check!(C05, "C05", "the session needs a pair", 24000, 700_000,
    |_t| (prop_oneof![5 => plain_paired(), 2 => paired_env(), 1 => exempt_env()], fs_ok(), any::<bool>(), proc_any(), any_pair_sig(), prop_oneof![2 => Just(vec![]), 2 => step_fault().prop_map(|f| vec![f]), 1 => side_fault().prop_map(|f| vec![f])], ops(400, 0..4),
          prop_oneof![3 => Just(TtyCfg::File), 1 => Just(TtyCfg::None), 1 => Just(TtyCfg::Pty)], any::<bool>(), prop_oneof![12 => Just(false), 1 => Just(true)])
        .prop_map(|(env, mut fs, release, proc_, mut pair, faults, ops, tty, stale, long)| {
            if !matches!(proc_.sigint, Disp::Handler { .. }) { pair.wait.retain(|a| *a != WaitAct::Sigint); pair.read.retain(|a| *a != ReadAct::Sigint) }
            fs.tty = tty;
            if stale { fs.pre = Pre::Stale }
            if long { fs.dir_name = Some(B(vec![b'L'; 90])); fs.pre = Pre::None }
            Case { fs, release, proc_, pair, faults, ops, ..Case::new(env) }
        }),
    |w, c, o| {
        let r = run(w, c);
        let name = c.env.sock_name().into_bytes();
        o.nontrivial = !c.env.exempt();
        o.class_if(allowed(&r), "opened");
        o.class_if(!allowed(&r), "refused");
        o.class_if(r.sigints > 0, "interrupted");
        o.class_if(r.hits.iter().any(|h| *h > 0), "a system call failed");
        o.class_if(c.proc_.fill >= 1000, "descriptors beyond 1024");
        if !health(&r, &mut o) { return o }
        let (Some(s0), Some(s1), Some(s2)) = (r.states[0], r.states[1], r.states[2]) else { o.inconclusive("no process state"); return o };
        for (what, s) in [("opening", s1), ("closing", s2)] {
            o.check(s.umask == s0.umask, || format!("umask after {}: {:o}, before: {:o}", what, s.umask, s0.umask));
            o.check(s.handler == s0.handler && s.sa_flags == s0.sa_flags && s.sa_mask == s0.sa_mask, || format!("SIGINT disposition changed by {}: {:x}/{:x}/{:x} from {:x}/{:x}/{:x}", what, s.handler, s.sa_flags, s.sa_mask, s0.handler, s0.sa_flags, s0.sa_mask));
            o.check(s.sigmask == s0.sigmask, || format!("signal mask changed by {}: {:x} from {:x}", what, s.sigmask, s0.sigmask));
        }
        let n = (s1.xfds as usize).min(MAXFDS);
        if !allowed(&r) { o.check(s1.xfds == 0, || format!("descriptors left open after a refusal: {:?}", &s1.fds[..n])) }
        if s1.noexec[..n].contains(&2) { o.known("log-socket-inherited", "the command inherits the plugin's connection to /dev/log, which the syslog crate opens without close-on-exec") }
        o.check(!s1.noexec[..n].contains(&1), || format!("the command would inherit a descriptor: {:?} {:?}", &s1.fds[..n], &s1.noexec[..n]));
        o.check(s2.xfds == 0, || format!("descriptors left open after the session: {:?}", &s2.fds[..(s2.xfds as usize).min(MAXFDS)]));
        // an exempt session does not look at the directory at all
        if !c.env.exempt() {
            let kept = c.fs.pre == Pre::Stale && c.faults.iter().zip(&r.hits).any(|(f, h)| *h > 0 && f.cls == C_STAT);
            o.check(kept || !r.after_open.contains_key(&name), || "the session's socket file is still there after opening".into());
            o.check(kept || !r.after.contains_key(&name), || "the session's socket file is still there at the end".into());
            let others = |l: &Listing| l.iter().filter(|e| *e.0 != name).map(|(k, n)| (k.clone(), n.clone())).collect::<Vec<_>>();
            o.check(others(&r.before) == others(&r.after), || format!("other files in the directory changed: {:?} to {:?}", r.before, r.after));
        }
    });

/// Failures of reading templates and writing to the terminal.
fn side_fault() -> BoxedStrategy<Fault> {
    (select(vec![C_OPEN, C_TTYWRITE, C_FILEREAD]), -1i32..4, select(vec![libc::EIO, libc::EMFILE, libc::EACCES])).prop_map(|(cls, nth, value)| Fault { cls, nth, short: false, value }).boxed()
}

// ---- C06 ----
check!(C06, "C06", "SIGINT was delivered inside a wait", 24000, 700_000,
    |_t| (prop_oneof![4 => plain_paired(), 1 => paired_env()], fs_ok(), any::<bool>(), disp(), umask(), 0u8..4, answer(), prop_oneof![3 => Just(vec![]), 1 => write_noise()], prop_oneof![4 => Just(0u16), 1 => 1u16..40, 1 => 1000u16..1100], (template(500), setuid(), any::<bool>()))
        .prop_map(|(env, mut fs, release, sigint, umask, k, a, faults, fill, (t, ids, twice))| {
            fs.pair_tpl = Tpl::File(t);
            let late = if matches!(a.first(), Some(b'y' | b'Y')) { a } else { "y".into() };
            let pair = match k {
                0 => Pair { wait: vec![WaitAct::Sigint], read: vec![ReadAct::Send(late)], ..Pair::default() },
                1 => Pair { wait: vec![WaitAct::Sigint, WaitAct::Connect(late, Then::Stay)], ..Pair::default() },
                _ => Pair { wait: vec![], read: vec![ReadAct::Sigint, ReadAct::Send(late)], ..Pair::default() },
            };
            Case { fs, release, pair, faults, proc_: Proc { sigint, umask, fill, ids, twice, ..Proc::default() }, ..Case::new(env) }
        }),
    |w, c, o| {
        let r = run(w, c);
        o.nontrivial = r.sigints > 0;
        o.class_if(!r.connected, "while waiting for a connection");
        o.class_if(r.connected, "while waiting for the answer");
        o.class_if(matches!(c.proc_.sigint, Disp::Handler { restart: true, .. }), "handler asks for restarts");
        o.class_if(matches!(c.proc_.sigint, Disp::Handler { siginfo: true, .. }), "handler asks for details");
        o.class_if(c.proc_.twice, "twice in a row");
        o.class_if(!r.rx.is_empty(), "after the prompt was sent");
        if !health(&r, &mut o) { return o }
        if r.sigints == 0 { o.inconclusive("the signal was never due"); return o }
        o.check(r.acts_after_sigint == 0, || "sudo went on waiting after Ctrl-C".into());
        o.check(!allowed(&r), || format!("the session was opened ({}) after Ctrl-C", r.open));
        o.check(r.handler_calls == r.sigints as i32, || format!("sudo's handler ran properly {} times for {} signals", r.handler_calls, r.sigints));
        if let (Some(a), Some(b)) = (r.states[0], r.states[1]) {
            o.check(a.handler == b.handler && a.sa_flags == b.sa_flags && a.sa_mask == b.sa_mask, || "sudo's SIGINT handler was not put back".into());
        }
    });

// ---- C07 ----
check!(C07, "C07", "at least two callbacks carried bytes to the pair", 12000, 300_000,
    |t| (prop_oneof![5 => plain_paired(), 1 => paired_env()], fs_ok(), any::<bool>(), yes(), write_noise(), ops(t.pick(300_000, 3_000_000), 0..t.pick(25, 60)), template(300), (any::<i32>(), any::<i32>()), proc_any())
        .prop_map(|(env, mut fs, release, pair, faults, ops, t, close, mut proc_)| {
            fs.pair_tpl = Tpl::File(t);
            if let Disp::Default | Disp::Ignore = proc_.sigint { proc_.sigint = Proc::default().sigint }
            proc_.fill = proc_.fill.min(40);
            Case { fs, release, pair, faults, ops, close, proc_, ..Case::new(env) }
        }),
    |w, c, o| {
        let r = run(w, c);
        o.nontrivial = c.ops.iter().filter(|x| mirrored(c, x).map_or(false, |b| !b.is_empty())).count() >= 2;
        o.class_if(r.hits.iter().any(|h| *h > 0), "short or interrupted writes");
        o.class_if(c.ops.iter().any(|x| mirrored(c, x).map_or(false, |b| b.len() > 60_000)), "large buffer");
        if !health(&r, &mut o) { return o }
        only_the_pair(&r, &mut o);
        o.check(r.open == 1, || format!("approved, yet refused: {}", r.open));
        if r.open != 1 { return o }
        let mut head = pair_prompt(c);
        head.push(r.first_byte.unwrap_or(0));
        head.push(b'\n');
        o.check(r.rx_open() == &head[..], || diff("prompt and echo", r.rx_open(), &head));
        for (k, op) in c.ops.iter().enumerate() {
            let want = mirrored(c, op).unwrap_or_default();
            let got = r.rx_of(k);
            o.check(got == &want[..], || format!("callback {} ({})", k, diff("bytes the pair received before it returned", got, &want)));
            if !matches!(op, Op::StdIn(_)) { o.check(r.rets[k] == 1, || format!("callback {} {:?} returned {} although the pair is there", k, op, r.rets[k])) }
        }
        let tail = &r.rx[r.marks.get(c.ops.len() + 1).copied().unwrap_or(0)..];
        o.check(tail.is_empty(), || format!("extra bytes at close: {}", short(tail)));
    });

/// What a single session must come to, judged by its own pair alone.
pub fn outcome_of(c: &Case, r: &Run) -> Outcome {
    let mut o = Outcome::new(true);
    if !health(r, &mut o) { return o }
    let closed = c.pair.leaves();
    let failed = r.hits.iter().any(|h| *h > 0);
    let yes = approved(r) && !closed && !failed && r.sigints == 0;
    o.check(!yes || r.open == 1, || format!("approved by its pair, yet refused: {}", r.open));
    o.check(!allowed(r) || (approved(r) && r.sigints == 0 && must_deny(c, r).is_none()), || format!("opened ({}) though its pair answered {:?} (connected {}, signals {})", r.open, r.first_byte, r.connected, r.sigints));
    if yes && r.open == 1 {
        let mut want = pair_prompt(c);
        want.push(r.first_byte.unwrap_or(0));
        want.push(b'\n');
        for op in &c.ops { want.extend(mirrored(c, op).unwrap_or_default()) }
        o.check(r.rx == want, || diff("what its pair saw", &r.rx, &want));
        for (k, op) in c.ops.iter().enumerate() {
            let x = i32::from(!matches!(op, Op::StdIn(_)));
            if !matches!(op, Op::StdIn(b) if b.len() == 0) { o.check(r.rets[k] == x, || format!("callback {:?} returned {}", op, r.rets[k])) }
        }
    }
    o
}

// ---- C08 ----
check!(C08, "C08", "the pair hangs up while callbacks with output follow, or the connection is inherited by another process", 16000, 400_000,
    |_t| (prop_oneof![6 => plain_paired(), 1 => paired_env()], any::<bool>(), yes(), ops(3000, 0..14),
          prop_oneof![3 => (0u16..14).prop_map(|k| Some(Hang::AtOp(k))), 3 => (1u16..20).prop_map(|k| Some(Hang::AtWrite(k))), 1 => (0u16..14).prop_map(|k| Some(Hang::ShutRdAtOp(k))), 3 => Just(None)],
          any::<bool>(), prop_oneof![4 => Just(vec![]), 2 => (1i32..100).prop_map(|n| vec![Fault { cls: C_WRITE, nth: -1, short: true, value: n }]),
              1 => (3i32..24, select(vec![libc::EPIPE, libc::ECONNRESET, libc::ECONNABORTED, libc::ENOTCONN, libc::EIO, libc::ETIMEDOUT, libc::ENETDOWN, libc::EBADF, libc::ENOBUFS, libc::EPERM])).prop_map(|(n, value)| vec![Fault { cls: C_WRITE, nth: -2 - n, short: false, value }])], (any::<i32>(), any::<i32>()), fs_ok(), proc_ok())
        .prop_map(|(env, release, mut pair, ops, hang, holder, faults, close, fs, proc_)| { pair.hang = hang; Case { release, pair, ops, faults, close, fs, proc_: Proc { holder, ..proc_ }, ..Case::new(env) } }),
    |w, c, o| {
        let r = run(w, c);
        o.class_if(r.hung_up_at.is_some(), "the pair hangs up");
        o.class_if(c.proc_.holder, "connection inherited by another process");
        o.class_if(matches!(c.pair.hang, Some(Hang::ShutRdAtOp(_))) && r.hung_up_at.is_some(), "the pair stops reading");
        o.class_if(r.hung_up_at.is_none() && r.open == 1, "orderly end");
        if !health(&r, &mut o) { return o }
        let failed = c.faults.iter().zip(&r.hits).any(|(f, h)| !f.short && *h > 0);
        o.class_if(failed, "the connection fails");
        // lost while the prompt is being sent: refusing is right, too
        if r.open != 1 {
            o.nontrivial = false;
            o.check(r.hung_up_at.is_some() || failed, || format!("approved, yet refused: {}", r.open));
            return o
        }
        let mut after = 0;
        for (k, op) in c.ops.iter().enumerate() {
            let m = mirrored(c, op).filter(|b| !b.is_empty());
            let gone = r.hung_up_at.map_or(false, |h| k >= h);
            if let (Some(m), true) = (&m, failed) {
                // from the failing write on, what the pair hasn't got is refused
                let all = r.rx_of(k) == &m[..];
                after += usize::from(!all);
                o.check(all || r.rets[k] == 0, || format!("callback {} {:?} returned {} although the connection failed and the pair did not get its data", k, op, r.rets[k]));
            } else if failed {
            } else if m.is_some() && gone {
                after += 1;
                o.check(r.rets[k] == 0, || format!("callback {} {:?} returned {} although the pair is gone since {:?}", k, op, r.rets[k], r.hung_up_at));
            } else if !matches!(op, Op::StdIn(_)) && !gone {
                o.check(r.rets[k] == 1, || format!("callback {} {:?} returned {} although the pair is there", k, op, r.rets[k]));
            }
        }
        o.nontrivial = after > 0 || (r.hung_up_at.is_none() && c.proc_.holder);
        if r.hung_up_at.is_none() && !failed {
            let mut want = pair_prompt(c);
            want.push(r.first_byte.unwrap_or(0));
            want.push(b'\n');
            for op in &c.ops { want.extend(mirrored(c, op).unwrap_or_default()) }
            o.check(r.rx == want, || diff("what the pair saw in all", &r.rx, &want));
            o.check(r.eof_at_done, || "the pair is still connected after sudo closed the session".into());
        }
    });

// ---- C09 ----
check!(C09, "C09", "data arrives on a redirected standard input", 24000, 700_000,
    |_t| (prop_oneof![3 => plain_paired(), 2 => paired_env(), 3 => exempt_env()], any::<bool>(), yes(), prop_oneof![150 => vcore::gen::echoed(vec(prop_oneof![2 => buf(70000).prop_map(Op::StdIn), 1 => op(300)], 1..8).boxed(), elsewhere), 1 => many(prop_oneof![2 => vcore::gen::data(20).prop_map(|b| Op::StdIn(Buf::Lit(b))), 1 => op(20)].boxed(), 1500)], fs_ok(), proc_ok())
        .prop_map(|(env, release, pair, ops, fs, proc_)| Case { release, pair, ops, fs, proc_, ..Case::new(env) }),
    |w, c, o| {
        let r = run(w, c);
        let ex = c.env.exempt();
        let stdin = c.ops.iter().filter(|x| matches!(x, Op::StdIn(b) if b.len() > 0)).count();
        o.nontrivial = stdin > 0;
        o.class(format!("{}, iolog_stdin {:?}", if ex { "exempt" } else { "paired" }, c.env.iolog[0]));
        if !health(&r, &mut o) { return o }
        o.check(r.open == 1, || format!("not opened: {}", r.open));
        if r.open != 1 { return o }
        for (k, op) in c.ops.iter().enumerate() {
            let Op::StdIn(b) = op else { continue };
            if ex {
                o.check(r.rets[k] == 1, || format!("standard input refused ({}) in an exempt session {:?}", r.rets[k], c.env.exemptions()));
            } else {
                if b.len() > 0 { o.check(r.rets[k] == 0, || format!("standard input not refused ({}) in a paired session, iolog_stdin {:?}", r.rets[k], c.env.iolog[0])) }
                o.check(r.rx_of(k).is_empty(), || format!("standard input was sent to the pair: {}", short(r.rx_of(k))));
            }
        }
    });

// ---- C10 ----
fn check_prompts(c: &Case, r: &Run, o: &mut Outcome, user: &[u8], pair: &[u8]) {
    o.check(r.open == 1, || format!("approved, yet refused: {}", r.open));
    if matches!(c.fs.tty, TtyCfg::File | TtyCfg::Pty) {
        o.check(r.tty == user, || diff("the user's prompt", &r.tty, user));
    }
    let mut want = pair.to_vec();
    want.push(r.first_byte.unwrap_or(0));
    want.push(b'\n');
    o.check(r.rx_open() == &want[..], || diff("the pair's prompt and echo", r.rx_open(), &want));
}
check!(C10, "C10", "a template contains a % other than as its last byte", 32000, 900_000,
    |t| (prop_oneof![2 => plain_paired(), 2 => paired_env()], template_any(t.pick(20000, 60000)), template_any(t.pick(20000, 60000)), prop_oneof![4 => Just(TtyCfg::File), 1 => Just(TtyCfg::Pty)], any::<bool>(), yes(), fs_ok(), proc_ok())
        .prop_map(|(env, user_tpl, pair_tpl, tty, release, pair, fs, proc_)| Case { release, pair, proc_, fs: Fs { user_tpl, pair_tpl, tty, ..fs }, ..Case::new(env) }),
    |w, c, o| {
        let r = run(w, c);
        let esc = |t: &Tpl| tpl_text(t).map_or(false, |b| b.iter().rposition(|x| *x == b'%').is_some() && b[..b.len().max(1) - 1].contains(&b'%'));
        o.nontrivial = esc(&c.fs.user_tpl) || esc(&c.fs.pair_tpl);
        o.class_if([&c.fs.user_tpl, &c.fs.pair_tpl].iter().any(|t| tpl_text(t).map_or(false, |b| b.last() == Some(&b'%'))), "ends in %");
        o.class_if([&c.fs.user_tpl, &c.fs.pair_tpl].iter().any(|t| tpl_text(t).map_or(false, |b| b.len() > 4096)), "long template");
        o.class_if([&c.fs.user_tpl, &c.fs.pair_tpl].iter().any(|t| tpl_text(t).map_or(false, |b| b.iter().any(|x| *x >= 0x80 || *x == 0))), "bytes outside ASCII text");
        if !health(&r, &mut o) { return o }
        check_prompts(c, &r, &mut o, &user_prompt(c), &pair_prompt(c));
    });

// ---- C11 ----
fn directives() -> BoxedStrategy<B> {
    prop_oneof![
        24 => vec(select(b"bBCdhHgpuUW".to_vec()), 1..16).prop_map(|v| B(v.into_iter().flat_map(|d| vec![b'%', d, b'|']).collect())),
        8 => Just(B::from("%b|%B|%C|%d|%h|%H|%g|%p|%u|%U|%W\n")),
        8 => Just(B::from("%C")),
        1 => (prop_oneof![vcore::gen::len(200_000), 60_000usize..200_000], any::<u8>()).prop_map(|(n, x)| { let mut v: Vec<u8> = (0..n).map(|i| (i as u8 ^ x) | 0x80).collect(); v.extend_from_slice(b"%U %p\n\n"); B(v) }),
    ].boxed()
}
#[derive(Clone, Copy, Debug)]
enum Unreadable { No, User(i32), Pair(i32), Both }
check!(C11, "C11", "the prompt shows at least three different values of the session, or a template cannot be read", 32000, 900_000,
    |_t| (paired_env(), prop_oneof![5 => directives().prop_map(Tpl::File), 2 => directives().prop_map(Tpl::Default), 1 => Just(Tpl::NoDefault), 1 => Just(Tpl::Missing), 1 => Just(Tpl::Dir)],
          prop_oneof![5 => directives().prop_map(Tpl::File), 2 => directives().prop_map(Tpl::Default), 1 => Just(Tpl::NoDefault), 1 => Just(Tpl::Missing), 1 => Just(Tpl::Dir)], any::<bool>(), yes(),
          prop_oneof![8 => Just(Unreadable::No), 1 => (0i32..30).prop_map(Unreadable::User), 1 => (0i32..30).prop_map(Unreadable::Pair), 1 => Just(Unreadable::Both)], prop_oneof![4 => Just(None), 1 => vec(any_str(), 20..300).prop_map(Some)], fs_ok(), proc_ok())
        .prop_map(|(mut env, mut user_tpl, mut pair_tpl, release, pair, un, many, fs, proc_)| {
            if let Some(m) = many { env.argv.extend(m) }
            let eio = |nth| vec![Fault { cls: C_FILEREAD, nth, short: false, value: libc::EIO }];
            let faults = match un {
                Unreadable::No => vec![],
                Unreadable::User(n) => { pair_tpl = Tpl::Missing; eio(n) }
                Unreadable::Pair(n) => { user_tpl = Tpl::Missing; eio(n) }
                Unreadable::Both => eio(-1),
            };
            Case { release, pair, faults, proc_, fs: Fs { user_tpl, pair_tpl, tty: TtyCfg::File, ..fs }, ..Case::new(env) }
        }),
    |w, c, o| {
        let r = run(w, c);
        let failed = r.hits.iter().any(|h| *h > 0);
        let n = |t: &Tpl| tpl_text(t).map_or(0, |b| b.iter().filter(|x| **x == b'%').count());
        o.nontrivial = failed || n(&c.fs.user_tpl).max(n(&c.fs.pair_tpl)) >= 3 || tpl_text(&c.fs.user_tpl).is_none() || tpl_text(&c.fs.pair_tpl).is_none();
        o.class_if(failed, "reading a template fails");
        o.class_if(tpl_text(&c.fs.pair_tpl).is_none() && !failed, "no template");
        o.class_if(c.env.argv.iter().any(|a| std::str::from_utf8(a).is_err()), "argument not UTF-8");
        o.class_if(std::str::from_utf8(c.env.cmd_cwd.as_ref().unwrap_or(&c.env.cwd)).is_err(), "directory not UTF-8");
        o.class_if(c.env.lines.is_none() || c.env.cols.is_none(), "terminal size unknown");
        o.class_if(c.env.cmd_cwd.is_some(), "working directory set by the policy");
        if !health(&r, &mut o) { return o }
        let both = c.faults.first().map_or(false, |f| f.nth < 0) && failed;
        let one = failed && !both;
        let user = if both || (one && tpl_text(&c.fs.user_tpl).is_some()) { c.env.expand(DEF_USER) } else { user_prompt(c) };
        let pair = if both || (one && tpl_text(&c.fs.pair_tpl).is_some()) { c.env.expand(DEF_PAIR) } else { pair_prompt(c) };
        check_prompts(c, &r, &mut o, &user, &pair);
    });

// ---- C12 ----
check!(C12, "C12", "the prompt is not empty and the terminal is missing, broken or irregular, or the text contains %", 32000, 900_000,
    |_t| (prop_oneof![1 => plain_paired(), 2 => paired_env()], template_any(3000).prop_map(no_nul),
          prop_oneof![3 => Just(TtyCfg::File), 1 => Just(TtyCfg::Pty), 2 => Just(TtyCfg::None), 1 => Just(TtyCfg::Empty), 1 => Just(TtyCfg::Full), 1 => Just(TtyCfg::Missing), 1 => Just(TtyCfg::Dir)],
          prop_oneof![5 => Just((0u8, false)), 1 => Just((1u8, false)), 1 => Just((2u8, false)), 1 => Just((0u8, true))], any::<bool>(), prop_oneof![1 => yes(), 1 => any_pair()],
          prop_oneof![6 => Just(None), 1 => (0i32..2, select(vec![libc::EIO, libc::ENOSPC, libc::EAGAIN])).prop_map(|(n, e)| Some((n, false, e))), 1 => (0i32..3).prop_map(|n| Some((n, false, libc::EINTR))), 1 => (-1i32..3, 1i32..40).prop_map(|(n, v)| Some((n, true, v)))], fs_ok(), proc_ok())
        .prop_map(|(env, user_tpl, tty, (print_mode, no_printf), release, pair, fault, fs, proc_)| {
            let faults = fault.map(|(nth, short, value)| Fault { cls: C_TTYWRITE, nth, short, value }).into_iter().collect();
            Case { release, pair, faults, fs: Fs { user_tpl, tty, ..fs }, proc_: Proc { print_mode, no_printf, ..proc_ }, ..Case::new(env) }
        }),
    |w, c, o| {
        let r = run(w, c);
        let want = user_prompt(c);
        if want.contains(&0) { o.nontrivial = false; return o }
        let fault = c.faults.iter().zip(&r.hits).any(|(f, h)| *h > 0 && !f.short && f.value != libc::EINTR);
        let tty_ok = matches!(c.fs.tty, TtyCfg::File | TtyCfg::Pty) && !fault;
        o.nontrivial = !want.is_empty() && (!tty_ok || want.contains(&b'%') || r.hits.iter().any(|h| *h > 0));
        o.class(format!("terminal {:?}{}", c.fs.tty, if fault { ", write fails" } else { "" }));
        o.class_if(c.proc_.print_mode > 0 || c.proc_.no_printf, "message channel fails or missing");
        o.class_if(!tty_ok && want.contains(&b'%'), "fallback text with %");
        if !health(&r, &mut o) { return o }
        o.check(r.waits >= 1, || format!("the pair was not asked: {}", r.open));
        let Some((tty, nprint)) = &r.at_wait else { return o };
        let said: Vec<&Print> = r.prints.iter().take(*nprint).collect();
        let text: Vec<u8> = said.iter().flat_map(|p| p.text.clone()).collect();
        if tty_ok {
            o.check(*tty == want, || diff("terminal when the wait starts", tty, &want));
            o.check(r.tty == want, || diff("terminal at the end", &r.tty, &want));
            o.check(text.is_empty(), || format!("also printed on the message channel: {}", short(&text)));
        } else if !c.proc_.no_printf && c.proc_.print_mode != 1 {
            o.check(text == want, || diff("text on the message channel", &text, &want));
            o.check(said.iter().all(|p| p.level & 0xff == 3), || format!("not on the error channel: level {:?}", said.iter().map(|p| p.level).collect::<Vec<_>>()));
        }
        o.check(r.prints.iter().all(|p| p.level & 0xff == 3), || format!("messages go to levels {:?}", r.prints.iter().map(|p| p.level).collect::<Vec<_>>()));
        let ok = approved(&r) && !c.pair.leaves();
        o.check(ok == (r.open == 1), || format!("the outcome {} does not follow the pair's answer {:?}", r.open, r.first_byte));
    });

// ---- C13 ----
check!(C13, "C13", "at least one option is given and decides something in this session", 32000, 900_000,
    |_t| (prop_oneof![2 => any_env(), 3 => paired_env(), 2 => exempt_env()], fs_ok(), template_any(300), template_any(300), any::<bool>(), yes(), ops(200, 0..3), any::<u64>(), proc_ok())
        .prop_map(|(mut env, mut fs, user_tpl, pair_tpl, release, pair, ops, order, proc_)| {
            env.order = order;
            fs.user_tpl = user_tpl;
            fs.pair_tpl = pair_tpl;
            fs.tty = TtyCfg::File;
            Case { fs, release, pair, ops, proc_, ..Case::new(env) }
        }),
    |w, c, o| {
        let r = run(w, c);
        let ex = c.env.exemptions();
        let decided = c.env.gids_enforced.is_some() || c.env.gids_exempted.is_some() || (ex.is_empty() && (c.fs.dir_name.is_some() || c.env.binary_path.is_some()));
        o.nontrivial = decided && ex.len() <= 1;
        o.class_if(c.env.gids_enforced.as_ref().map_or(false, |b| parse_gids(b).is_none()), "gids_enforced not a list");
        o.class_if(c.env.gids_exempted.as_ref().map_or(false, |b| parse_gids(b).is_none()), "gids_exempted not a list");
        o.class_if(c.env.gids_enforced.is_none(), "gids_enforced absent");
        o.class_if(c.fs.dir_name.is_none(), "socket_dir absent");
        o.class_if(c.env.binary_path.is_none(), "binary_path absent");
        let odd = |b: &Option<B>| b.as_ref().map_or(false, |b| std::str::from_utf8(b).is_err());
        o.class_if(odd(&c.env.binary_path) || odd(&c.fs.dir_name) || (c.fs.odd && (matches!(c.fs.user_tpl, Tpl::File(_)) || matches!(c.fs.pair_tpl, Tpl::File(_)))), "a path option that is not UTF-8");
        for e in &ex { if ex.len() == 1 { o.class(format!("only exemption: {}", e)) } }
        if !health(&r, &mut o) { return o }
        if !ex.is_empty() { check_exempt(c, &r, &mut o); return o }
        if matches!(c.env.target(), Target::Both | Target::Neither) { o.check(!allowed(&r), || format!("opened: {}", r.open)); return o }
        o.check(r.waits >= 1, || format!("no pair was asked; options {:?} {:?} {:?}", c.env.binary_path, c.env.gids_enforced, c.env.gids_exempted));
        check_prompts(c, &r, &mut o, &user_prompt(c), &pair_prompt(c));
    });

// ---- C28 ----
const DECLINED: &str = "pair declined the session";
const COMMS:    &str = "couldn't establish communications with the pair";
const ENDED:    &str = "pair ended the session";
const STDIN:    &str = "redirection of stdin to paired sessions is prohibited";
const BOTH:     &str = "the -u and -g options may not both be specified";

/// The lines printed on sudo's error channel during one event.
fn said(r: &Run, op: i32) -> Vec<String> {
    let t: Vec<u8> = r.prints.iter().filter(|p| p.op == op && p.level & 0xff == 3).flat_map(|p| p.text.clone()).collect();
    String::from_utf8_lossy(&t).lines().map(str::to_owned).collect()
}
check!(C28, "C28", "a session or a callback is refused", 32000, 900_000,
    |_t| (prop_oneof![4 => plain_paired(), 2 => paired_env(), 1 => any_env()], fs_ok(), any::<bool>(),
          prop_oneof![3 => yes(), 2 => any_pair(), 1 => any_pair_sig()], prop_oneof![3 => Just(vec![]), 2 => step_fault().prop_map(|f| vec![f]), 1 => write_noise()],
          ops(400, 0..8), prop_oneof![2 => Just(None), 1 => (0u16..8).prop_map(|k| Some(Hang::AtOp(k))), 1 => (0u16..12).prop_map(|k| Some(Hang::AtWrite(k)))],
          prop_oneof![6 => Just(DirCfg::Ok), 1 => dircfg()], (prop_oneof![8 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)], proc_ok()), any::<u8>())
        .prop_map(|(mut env, mut fs, release, mut pair, faults, ops, hang, dir, (print_mode, proc_), k)| {
            if k < 32 { env = env.paired(PairKind::User); env.runas_group = Some("wheel".into()) }
            pair.hang = hang;
            if dir.perm().is_none() { fs.dir_name = Some("s".into()); fs.pre = Pre::None }
            fs.dir = dir;
            Case { fs, release, pair, faults, ops, proc_: Proc { print_mode, ..proc_ }, ..Case::new(env) }
        }),
    |w, c, o| {
        let r = run(w, c);
        o.nontrivial = !allowed(&r) || r.rets.iter().any(|x| *x != 1);
        if !health(&r, &mut o) { return o }
        let line = |m: &str| format!("sudo_pair: {}", m);
        let reasons = |op: i32| -> Vec<&str> {
            let l = said(&r, op);
            [DECLINED, COMMS, ENDED, STDIN, BOTH].into_iter().flat_map(|m| l.iter().filter(move |x| **x == line(m)).map(move |_| m)).collect()
        };
        let speaks = c.proc_.print_mode == 0 && !c.proc_.no_printf;
        if !allowed(&r) {
            o.check(r.open == -1, || format!("a refused session returns {}", r.open));
            let prompt = pair_prompt(c);
            // whether the pair got the whole prompt decides what went wrong;
            // one that left at once may or may not have
            let asked = r.connected && r.rx.len() >= prompt.len() && !c.faults.iter().zip(&r.hits).any(|(f, h)| *h > 0 && f.cls == C_WRITE && !f.short && f.value != libc::EINTR);
            let want: &[&str] = if matches!(c.env.target(), Target::Both) { &[BOTH] }
                else if r.pair_closed && (r.rx.len() <= prompt.len() || c.pair.leaves()) { &[DECLINED, COMMS] }
                else if asked { &[DECLINED] } else { &[COMMS] };
            o.class(format!("refused: {}", want.join(" or ")));
            let got = reasons(0);
            if c.env.target() == Target::Neither && got.is_empty() && speaks {
                o.known("self-new-gid", "a user with a new gid who becomes themselves without -g is refused without a word (the plugin panics: it cannot say whose approval is needed)");
                return o
            }
            if speaks { o.check(got.len() == 1 && want.contains(&got[0]), || format!("the user is told {:?} ({:?}), expected {:?}", got, said(&r, 0), want)) }
        } else {
            o.check(reasons(0).is_empty(), || format!("an opened session reports {:?}", reasons(0)));
            for (k, op) in c.ops.iter().enumerate() {
                let got = reasons(k as i32 + 1);
                if r.rets[k] == 1 { o.check(got.is_empty(), || format!("callback {} {:?} succeeds, yet reports {:?}", k, op, got)); continue }
                o.check(r.rets[k] == 0, || format!("refused callback {} {:?} returns {}", k, op, r.rets[k]));
                let want = if let Op::StdIn(_) = op { STDIN } else { ENDED };
                o.class(format!("callback refused: {}", want));
                if speaks { o.check(got == [want], || format!("on refusing callback {} {:?} the user is told {:?} ({:?}), expected {:?}", k, op, got, said(&r, k as i32 + 1), want)) }
            }
        }
    });

// ---- C29 ----
/// A record of the log: its priority and the text after the process name.
fn record(b: &[u8]) -> Option<(u32, String)> {
    let s = String::from_utf8_lossy(b).into_owned();
    let (pri, rest) = s.strip_prefix('<')?.split_once('>')?;
    let (_, text) = rest.split_once("]: ")?;
    Some((pri.parse().ok()?, text.to_owned()))
}
check!(C29, "C29", "a log daemon was listening when the session was decided", 24000, 700_000,
    |_t| (prop_oneof![3 => plain_paired(), 2 => paired_env(), 2 => exempt_env(), 1 => any_env()], fs_ok(), any::<bool>(), prop_oneof![2 => yes(), 2 => any_pair(), 1 => any_pair_sig()],
          prop_oneof![4 => Just(vec![]), 1 => prop_oneof![6 => step_fault(), 1 => Just(Fault { cls: C_SHUTDOWN, nth: 0, short: false, value: libc::ENOTCONN })].prop_map(|f| vec![f])], ops(400, 0..5), prop_oneof![5 => Just(LogCfg::Present), 1 => log()], any::<u64>(),
          (prop_oneof![3 => Just(None), 1 => (0u16..5).prop_map(|k| Some(Hang::AtOp(k)))], vec((vcore::gen::data(5), vcore::gen::data(5)), 5), proc_ok()))
        .prop_map(|(env, mut fs, release, mut pair, faults, mut ops, log, secret, (hang, around, proc_))| {
            fs.log = log;
            if hang.is_some() { pair.hang = hang }
            // output the log can be searched for
            for (i, op) in ops.iter_mut().enumerate() {
                if let Op::TtyOut(b) | Op::StdOut(b) | Op::StdErr(b) | Op::StdIn(b) | Op::TtyIn(b) = op {
                    let (before, after) = &around[i % around.len()];
                    *b = Buf::Lit(B([&before[..], format!("secret{:016x}", secret).as_bytes(), &after[..]].concat()))
                }
            }
            Case { fs, release, pair, faults, ops, proc_, ..Case::new(env) }
        }),
    |w, c, o| {
        let r = run(w, c);
        let listening = c.fs.log == LogCfg::Present;
        let total: usize = c.env.argv.iter().map(|a| a.len()).chain([c.env.command.len()]).sum();
        // what doesn't fit a datagram can't be logged
        o.nontrivial = listening && total < 10_000;
        o.class(format!("log {:?}", c.fs.log).split('(').next().unwrap().to_string());
        if !health(&r, &mut o) { return o }
        let exempt = c.env.exempt();
        // the log's state changes no outcome
        if exempt { o.check(r.open == 1, || format!("an exempt session was refused: {}", r.open)) }
        else { o.check(!allowed(&r) || approved(&r), || format!("opened ({}) without approval", r.open)) }
        for op in &c.ops {
            if let Op::TtyOut(b) | Op::StdOut(b) | Op::StdErr(b) | Op::StdIn(b) | Op::TtyIn(b) = op {
                let b = b.bytes();
                // what's around it may be escaped in a record
                let Some(at) = b.windows(6).position(|x| x == b"secret") else { continue };
                let b = &b[at..(at + 22).min(b.len())];
                o.check(b.len() < 22 || !r.logged.iter().any(|l| l.1.windows(b.len()).any(|x| x == b)), || "what the session shows or reads is in the system log".into());
            }
        }
        if !o.nontrivial { return o }
        let rec: Vec<(usize, u32, String)> = r.logged.iter().filter_map(|(n, b)| record(b).map(|(p, t)| (*n, p, t))).collect();
        o.check(rec.len() == r.logged.len(), || format!("malformed log records {:?}", r.logged.iter().map(|x| show(&x.1)).collect::<Vec<_>>()));
        o.check(rec.iter().all(|x| x.1 >> 3 == 4), || format!("records outside the auth facility: {:?}", rec));
        let has = |m: &str| rec.iter().any(|x| x.2 == m || x.2.starts_with(&format!("{}, ", m)));
        let (ex, req, yes, no) = (has("pair session exempt from pairing requirements"), has("pair session required"), has("remote pair approved session"), has("remote pair declined session"));
        let (both, end) = (has("both -u and -g were provided to sudo"), has("pair session ended"));
        o.class_if(exempt, "exempt");
        o.class_if(!exempt && allowed(&r), "approved");
        o.class_if(no, "declined");
        let log = || rec.iter().map(|x| x.2.clone()).collect::<Vec<_>>();
        o.check(ex == exempt, || format!("exempt: {}, logged as exempt: {}: {:?}", exempt, ex, log()));
        o.check(req != exempt, || format!("exempt: {}, logged as requiring a pair: {}: {:?}", exempt, req, log()));
        o.check(yes == (!exempt && allowed(&r)), || format!("opened with a pair: {}, logged as approved: {}: {:?}", !exempt && allowed(&r), yes, log()));
        o.check(!no || !allowed(&r), || format!("logged as declined, yet opened: {:?}", log()));
        let noanswer = r.sigints > 0 || c.faults.iter().zip(&r.hits).any(|(f, h)| *h > 0 && f.cls != C_UNLINK);
        let other = matches!(r.first_byte, Some(x) if x != b'y' && x != b'Y') && !r.pair_closed;
        o.check(no || noanswer || !other, || format!("the pair answered {:?}, which is not logged: {:?}", r.first_byte, log()));
        o.check(both == (c.env.target() == Target::Both && !exempt), || format!("target {:?}, logged as both user and group: {}", c.env.target(), both));
        o.check(end == (!exempt && allowed(&r)), || format!("end of a session logged: {}: {:?}", end, log()));
        // the verdict says whose session it is
        let args = format!("{:?}", c.env.argv.iter().skip(1).map(|a| String::from_utf8_lossy(a)).collect::<Vec<_>>());
        let what = [format!(", uid: {}", c.env.uid), format!(", runas_euid: {}", c.env.t_euid()), format!(", runas_egid: {}", c.env.t_egid()),
                    format!(", command: {}", String::from_utf8_lossy(&c.env.command)), format!(", args: {}", args), ", plugin_name: sudo_pair".to_owned()];
        for x in rec.iter().filter(|x| !x.2.starts_with("plugin ")) {
            for w in &what { o.check(x.2.contains(w.as_str()), || format!("the record {:?} lacks {:?}", x.2, w)) }
        }
    });
