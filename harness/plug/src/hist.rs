//! C19-C22: histories of callbacks against a state machine of the documented
//! life cycle.

use crate::gen::*;
use crate::guard::Pool;
use crate::host::*;
use crate::iso::isolated;
use crate::model::M;
use crate::probe::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use sudo_plugin::prelude::{IoPlugin, LogStatus, OpenStatus};
use vcore::gen::*;
use vcore::{Check, Outcome, Tier, B};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sess { pub args: Args, pub open: Do, pub ops: Vec<(Call, Do)>, pub close: Option<(i32, i32)>, pub close_act: Do, pub on_drop: Do }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    pub kind: Kind, pub before: Vec<Call>, pub sessions: Vec<Sess>, pub after: Vec<Call>,
    pub conv: (OS, LS), pub conv_panics: bool, pub fail_from: Option<usize>,
    /// Another plugin of the same library is open throughout.
    pub also: Option<Kind>,
    /// sudo_pair itself (its optimised build) is asked for its version.
    #[serde(default)] pub real: Option<(bool, i32)>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cat { Ret, Life, Data, Errors, Info }

pub fn version(k: Kind) -> &'static str {
    match k { Kind::A => <ProbeA as IoPlugin>::VERSION, Kind::B => B_VERSION, Kind::C => <ProbeC as IoPlugin>::VERSION, Kind::D => <ProbeD as IoPlugin>::VERSION }
}
const HINT: [&str; 5] = ["iolog_ttyin", "iolog_ttyout", "iolog_stdin", "iolog_stdout", "iolog_stderr"];

pub fn printed(level: i32) -> Vec<u8> { script().prints.iter().filter(|p| p.0 == level).flat_map(|p| p.1.clone()).collect() }
pub fn lines(k: Kind, texts: &[String]) -> Vec<u8> { texts.iter().flat_map(|t| format!("{}: {}\n", k.name(), t).into_bytes()).collect() }
/// A leading blank line is a matter of taste.
pub fn trimmed(b: Vec<u8>) -> Vec<u8> { if b.first() == Some(&b'\n') { b[1..].to_vec() } else { b } }

struct St { live: bool, printf: bool, env: Option<bool>, hints: [bool; 5] }

struct Expect { ret: Option<i32>, events: Vec<Event>, errors: Option<Vec<u8>>, info: Option<Vec<u8>> }

/// What a handler's own behaviour makes of the call.
fn acted(k: Kind, act: &Do, ev: Event, open: bool, printf: bool) -> Expect {
    let (ok, refused) = if open { (1, -1) } else { (1, 0) };
    let nothing = Some(vec![]);
    match act {
        Do::Ok => Expect { ret: Some(ok), events: vec![ev], errors: nothing.clone(), info: nothing },
        Do::Panic(_) => Expect { ret: Some(refused), events: vec![ev], errors: None, info: None },
        Do::Err(e) => {
            let blown = match e.panics { Some(At::Display) => true, Some(At::Source) => e.texts.len() > 1, Some(At::Open) => open, Some(At::Log) => !open, None => false };
            // without a message function there is no need to put the error into words
            let words = matches!(e.panics, Some(At::Display) | Some(At::Source));
            if words && !printf { return Expect { ret: None, events: vec![ev], errors: None, info: None } }
            if blown { return Expect { ret: Some(refused), events: vec![ev], errors: None, info: None } }
            let code = if open { e.open.code() } else { e.log.code() };
            let nul = e.texts.iter().any(|t| t.contains('\0'));
            let texts = if e.texts.is_empty() { vec![String::new()] } else { e.texts.clone() };
            Expect { ret: Some(code), events: vec![ev], errors: (!nul).then(|| lines(k, &texts)), info: nothing }
        }
    }
}

fn call(k: Kind, st: &St, c: &Call, act: &Do) -> Expect {
    let quiet = |ret| Expect { ret, events: vec![], errors: Some(vec![]), info: Some(vec![]) };
    let outside = |ret| Expect { ret, events: vec![], errors: None, info: None };
    match c {
        Call::Log(i, b) => {
            let i = usize::from(*i % 5);
            let due = st.hints[i] || k.ignores_hints();
            if !st.live { return outside((st.env == Some(false) || due).then_some(0)) }
            if !due || !k.handles() { return quiet(Some(1)) }
            acted(k, act, Event::Log(i as u8, b.to_vec()), false, st.printf)
        }
        Call::Win(l, c) => {
            if !st.live { return outside(Some(0)) }
            if !k.handles() { return quiet(Some(1)) }
            acted(k, act, Event::Win(u64::from(*l), u64::from(*c)), false, st.printf)
        }
        Call::Version(v) => {
            if st.env != Some(true) {
                // after a failed open it is open whether there's anything to ask
                let mut e = outside(None);
                if st.env.is_none() && k == Kind::D { e.events = script().events.iter().filter(|x| **x == Event::Version(*v != 0)).cloned().collect() }
                return e
            }
            if k == Kind::D { return match act {
                Do::Panic(_) => Expect { ret: Some(-1), events: vec![Event::Version(*v != 0)], errors: None, info: None },
                _ => Expect { ret: Some(1), events: vec![Event::Version(*v != 0)], errors: Some(vec![]), info: Some(vec![]) },
            } }
            Expect { ret: Some(1), events: vec![], errors: Some(vec![]), info: Some(format!("{} I/O plugin version {}\n", k.name(), version(k)).into_bytes()) }
        }
    }
}

fn compare(out: &mut Vec<(Cat, String)>, what: &str, e: &Expect, ret: Option<i32>, exact: bool) {
    let s = script();
    if let (Some(w), Some(g)) = (e.ret, ret) { if w != g { out.push((Cat::Ret, format!("{}: returned {}, not {}", what, g, w))) } }
    let data = |v: &[Event]| v.iter().filter(|e| matches!(e, Event::Log(..) | Event::Win(..))).cloned().collect::<Vec<_>>();
    let life = |v: &[Event]| v.iter().filter(|e| !matches!(e, Event::Log(..) | Event::Win(..))).cloned().collect::<Vec<_>>();
    if data(&s.events) != data(&e.events) { out.push((Cat::Data, format!("{}: the plugin saw {:?}, not {:?}", what, data(&s.events), data(&e.events)))) }
    if life(&s.events) != life(&e.events) { out.push((Cat::Life, format!("{}: the plugin saw {:?}, not {:?}", what, life(&s.events), life(&e.events)))) }
    if exact {
        if let Some(w) = &e.errors { let g = trimmed(printed(3)); if g != *w { out.push((Cat::Errors, format!("{}: the user was told \"{}\", not \"{}\"", what, vcore::bytes::show(&g), vcore::bytes::show(w)))) } }
        if let Some(w) = &e.info { let g = printed(4); if g != *w { out.push((Cat::Info, format!("{}: informed \"{}\", not \"{}\"", what, vcore::bytes::show(&g), vcore::bytes::show(w)))) } }
    }
}

fn fresh() { let s = script(); s.events.clear(); s.prints.clear(); }
fn hints(a: &Args) -> [bool; 5] { let m = M::of(&a.command_info); HINT.map(|k| m.b(k, false)) }
fn user(a: &Args) -> String { M::of(&a.user_info).s("user").unwrap_or_default() }

#[derive(Clone, Copy)]
enum Step { Before(usize), Open(usize), Op(usize, usize), Close(usize), After(usize) }

/// One plugin's history, call by call.
pub struct Player<'a> { h: &'a Hist, host: Host<'a>, st: St, steps: Vec<Step>, at: usize, exact: bool, via: i32 }

impl<'a> Player<'a> {
    /// `via` tells which of sudo's message functions is this plugin's.
    pub fn new(pool: &'a mut Pool, h: &'a Hist, via: i32) -> Player<'a> {
        let mut steps: Vec<Step> = (0..h.before.len()).map(Step::Before).collect();
        for (n, ss) in h.sessions.iter().enumerate() {
            steps.push(Step::Open(n));
            steps.extend((0..ss.ops.len()).map(|i| Step::Op(n, i)));
            steps.push(Step::Close(n));
        }
        steps.extend((0..h.after.len()).map(Step::After));
        Player { h, host: Host { pool, plugin: h.kind.plugin(), via }, st: St { live: false, printf: true, env: Some(false), hints: [false; 5] }, steps, at: 0, exact: true, via }
    }
    pub fn live(&self) -> bool { self.st.live }
    /// May it speak? What an open that failed leaves behind is unspecified.
    pub fn printf(&self) -> bool { self.st.printf || self.st.env != Some(true) }

    /// Makes the next call, if there's one left, and compares its effects.
    pub fn step(&mut self, out: &mut Vec<(Cat, String)>) -> bool {
        let Some(step) = self.steps.get(self.at).copied() else { return false };
        self.at += 1;
        let (h, k) = (self.h, self.h.kind);
        let s = script();
        s.conv = h.conv; s.conv_panics = h.conv_panics; s.via = self.via;
        fresh();
        match step {
            Step::Before(i) => {
                s.act = Do::Ok;
                let c = &h.before[i];
                let r = self.host.call(c);
                compare(out, &format!("{:?} before open", c), &call(k, &self.st, c, &Do::Ok), Some(r), false);
            }
            Step::Open(n) => {
                let ss = &h.sessions[n];
                self.exact = h.fail_from.is_none() && !ss.args.no_printf;
                let m = M::of(&ss.args.command_info);
                let usable = ss.args.version >= (1 << 16 | 9) && ["plugin_dir", "plugin_path", "progname"].iter().all(|x| M::of(&ss.args.settings).s(x).is_some());
                let command = m.raw("command").map_or(false, |c| !c.is_empty());
                s.act = ss.open.clone();
                let r = self.host.open(&ss.args);
                let e = if !usable {
                    Expect { ret: Some(if h.conv_panics { -1 } else { h.conv.0.code() }), events: vec![], errors: None, info: None }
                } else if !command {
                    Expect { ret: Some(1), events: vec![], errors: Some(vec![]), info: Some(vec![]) }
                } else { acted(k, &ss.open, Event::Open(user(&ss.args)), true, !ss.args.no_printf) };
                compare(out, &format!("open {}", n), &e, Some(r), self.exact);
                if !usable && self.exact && printed(3).is_empty() { out.push((Cat::Errors, format!("open {}: failed without a word", n))) }
                let st = &mut self.st;
                st.live = usable && command && ss.open == Do::Ok;
                st.env = if usable { if st.live || !command { Some(true) } else { None } } else if st.env == Some(false) { Some(false) } else { None };
                st.hints = hints(&ss.args);
                st.printf = !ss.args.no_printf;
            }
            Step::Op(n, i) => {
                let (c, act) = &h.sessions[n].ops[i];
                s.act = act.clone();
                let r = self.host.call(c);
                compare(out, &format!("call {} of session {}, {:?}, plugin {:?}", i, n, c, act), &call(k, &self.st, c, act), Some(r), self.exact);
            }
            Step::Close(n) => {
                let ss = &h.sessions[n];
                // what did not open need not be closed before the next attempt;
                // without a close the last session is still open
                let Some((a, b)) = ss.close else {
                    if self.st.live { while matches!(self.steps.get(self.at), Some(Step::Open(_) | Step::Op(..) | Step::Close(_))) { self.at += 1 } }
                    return true
                };
                s.act = ss.close_act.clone();
                s.on_drop = ss.on_drop.clone();
                self.host.close(a, b);
                let st = &mut self.st;
                let events = if !st.live { vec![] } else if k.handles() { vec![Event::Close(a, b), Event::Drop] } else { vec![Event::Drop] };
                compare(out, &format!("close of session {}", n), &Expect { ret: None, events, errors: None, info: None }, None, false);
                let blown = st.live && (matches!(ss.close_act, Do::Panic(_)) || matches!(ss.on_drop, Do::Panic(_)));
                script().on_drop = Do::Ok;
                st.live = false;
                st.env = if blown { None } else { Some(false) };
            }
            Step::After(i) => {
                s.act = Do::Ok;
                let c = &h.after[i];
                let r = self.host.call(c);
                compare(out, &format!("{:?} at the end", c), &call(k, &self.st, c, &Do::Ok), Some(r), false);
            }
        }
        true
    }
}

/// Runs the history; every deviation from the life cycle, with its kind.
pub fn play(pool: &mut Pool, h: &Hist) -> Vec<(Cat, String)> {
    let mut out = vec![];
    let k = h.kind;
    let mut also_pool = Pool::new();
    let s = script();
    s.fail_from = h.fail_from; s.calls = 0; s.on_drop = Do::Ok; s.via = 0;
    let also = h.also.filter(|a| *a != k);
    if let Some(a) = also {
        s.act = Do::Ok;
        let mut args = Args::plain();
        args.user_info[0] = "user=other".into();
        let r = Host { pool: &mut also_pool, plugin: a.plugin(), via: 0 }.open(&args);
        if r != 1 { out.push((Cat::Ret, format!("the other plugin's open returned {}", r))) }
    }
    let mut p = Player::new(pool, h, 0);
    while p.step(&mut out) {}
    if let Some(a) = also {
        fresh();
        script().act = Do::Ok;
        let mut host = Host { pool: &mut also_pool, plugin: a.plugin(), via: 0 };
        let c = Call::Log(1, "to the other".into());
        let r = host.call(&c);
        let st = St { live: true, printf: true, env: Some(true), hints: [true; 5] };
        compare(&mut out, "a log call to the other plugin", &call(a, &st, &c, &Do::Ok), Some(r), false);
        fresh();
        host.close(3, 4);
        let events = if a.handles() { vec![Event::Close(3, 4), Event::Drop] } else { vec![Event::Drop] };
        compare(&mut out, "close of the other plugin", &Expect { ret: None, events, errors: None, info: None }, None, false);
    }
    if let Some((optimised, verbose)) = h.real { if let Some(m) = real_version(&mut also_pool, optimised, verbose) { out.push((Cat::Info, m)) } }
    out
}

/// `sudo -V` with the sudo_pair plugin.
fn real_version(pool: &mut Pool, optimised: bool, verbose: i32) -> Option<String> {
    let (dir, version) = (std::env::var("VERIF_PLUGIN_DIR").ok()?, std::env::var("VERIF_PAIR_VERSION").ok()?);
    let path = std::ffi::CString::new(format!("{}/{}/libsudo_pair.so", dir, if optimised { "release" } else { "debug" })).ok()?;
    let p = unsafe {
        let h = libc::dlopen(path.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
        if h.is_null() { return Some("libsudo_pair.so cannot be loaded".into()) }
        libc::dlsym(h, b"sudo_pair\0".as_ptr().cast())
    };
    if p.is_null() { return Some("no sudo_pair in libsudo_pair.so".into()) }
    let mut a = Args::plain();
    a.command_info.clear();
    let s = script();
    s.conv = (OS::Deny, LS::Deny); s.fail_from = None; s.via = 0; s.prints.clear(); s.calls = 0;
    let mut host = Host { pool, plugin: p as *const sudo_plugin::sys::io_plugin, via: 0 };
    let r = host.open(&a);
    if r != 1 { return Some(format!("sudo_pair's open for a version request returned {}", r)) }
    let r = host.call(&Call::Version(verbose));
    let want = format!("sudo_pair I/O plugin version {}\n", version).into_bytes();
    let got = printed(4);
    (r != 1 || got != want || !printed(3).is_empty()).then(|| format!("sudo_pair's show_version returned {} and printed \"{}\", not \"{}\"", r, vcore::bytes::show(&got), vcore::bytes::show(&want)))
}

// ---- generators ----
fn buf(max: usize) -> BoxedStrategy<B> { prop_oneof![20 => data(400), 1 => data(max)].boxed() }
fn c_call(max: usize) -> BoxedStrategy<Call> {
    let n = prop_oneof![3 => 0u32..300, 1 => u32s().prop_map(|v| v as u32), 1 => any::<u32>()];
    prop_oneof![
        8 => (0u8..5, buf(max)).prop_map(|(k, b)| Call::Log(k, b)),
        2 => (n.clone(), n).prop_map(|(a, b)| Call::Win(a, b)),
        1 => prop_oneof![Just(0), Just(1), any::<i32>()].prop_map(Call::Version),
    ].boxed()
}
/// Rarely a few calls over and over.
fn many(v: BoxedStrategy<Vec<(Call, Do)>>) -> BoxedStrategy<Vec<(Call, Do)>> {
    let long = (vec(c_call(20), 1..4), prop_oneof![vcore::gen::len(3000), 300usize..=3000]).prop_map(|(v, n)| v.into_iter().map(|c| (c, Do::Ok)).cycle().take(n).collect());
    prop_oneof![300 => v, 1 => long].boxed()
}
fn elsewhere(c: Call) -> Call {
    match c { Call::Log(k, b) => Call::Log((k + 1) % 5, b), Call::Win(a, b) => Call::Win(b, a), Call::Version(v) => Call::Version(v) }
}
fn hinted() -> BoxedStrategy<Vec<B>> {
    vec(prop_oneof![6 => Just("true"), 3 => Just("false"), 2 => Just(""), 1 => Just("1"), 1 => Just("TRUE")], 5).prop_map(|v| {
        v.iter().zip(HINT).filter(|(x, _)| !x.is_empty()).map(|(x, k)| B::from(format!("{}={}", k, x))).collect()
    }).boxed()
}
/// Usable arguments; a third of them a plain version request when asked for.
fn args(versions: bool) -> BoxedStrategy<Args> {
    (hinted(), any::<bool>(), "[a-z]{1,12}", vec(cstr(20), 1..4), prop_oneof![3 => Just(true), 1 => Just(false)], prop_oneof![8 => Just(false), 1 => Just(true)], prop_oneof![4 => Just(1u32 << 16 | 15), 1 => (9u32..40).prop_map(|m| 1 << 16 | m)])
        .prop_map(move |(h, low, user, argv, cmd, no_printf, version)| {
            let mut a = Args::plain();
            a.command_info.truncate(4);
            a.command_info.extend(h);
            if versions && !cmd { a.command_info.remove(0); }
            a.user_info[0] = format!("user={}", user).into();
            a.argv = argv; a.low = low; a.version = version;
            a.no_printf = no_printf && versions;
            a
        }).boxed()
}
fn unusable(a: Args, k: u8) -> Args {
    let mut a = a;
    match k { 0 => a.version = 1 << 16 | 8, 1 => a.settings.clear(), 2 => { a.settings.remove(2); } _ => a.version = 9 }
    a
}
fn act(w: (u32, u32, u32), longest: usize) -> BoxedStrategy<Do> {
    let mut v: Vec<(u32, BoxedStrategy<Do>)> = vec![(w.0, Just(Do::Ok).boxed())];
    if w.1 > 0 { v.push((w.1, er(longest).prop_map(Do::Err).boxed())) }
    if w.2 > 0 {
        v.push((w.2, payload().prop_map(Do::Panic).boxed()));
        v.push((w.2, (er(4), select(vec![At::Display, At::Source, At::Open, At::Log])).prop_map(|(mut e, at)| { e.panics = Some(at); Do::Err(e) }).boxed()));
    }
    proptest::strategy::Union::new_weighted(v).boxed()
}
struct G { open: (u32, u32, u32), ops: (u32, u32, u32), close: bool, versions: bool, outside: bool, sessions: usize, nops: usize, longest: usize, big: usize, bad: bool }
fn hist(g: G) -> BoxedStrategy<Hist> {
    let G { open, ops, close, versions, outside, sessions, nops, longest, big, bad } = g;
    let pan = move || if close { prop_oneof![2 => Just(Do::Ok), 1 => payload().prop_map(Do::Panic)].boxed() } else { Just(Do::Ok).boxed() };
    let code = || prop_oneof![2 => 0i32..256, 1 => any::<i32>()];
    let sess = (args(versions), prop_oneof![7 => Just(None), 1 => (0u8..4).prop_map(Some)], act(open, longest), many(vcore::gen::echoed(vec((c_call(big), act(ops, longest)), 0..nops).boxed(), |(c, d)| (elsewhere(c), d))), prop_oneof![1 => Just(None), 4 => (code(), code()).prop_map(Some)], pan(), pan())
        .prop_map(move |(a, u, open, ops, close, close_act, on_drop)| Sess { args: match u { Some(k) if bad => unusable(a, k), _ => a }, open, ops, close, close_act, on_drop });
    let out = move || if outside { vec(c_call(200), 0..4).boxed() } else { Just(vec![]).boxed() };
    (kind(), out(), vec(sess, 1..=sessions), out(), (os(), ls()), prop_oneof![6 => Just(false), 1 => Just(true)], prop_oneof![5 => Just(None), 1 => kind().prop_map(Some)], if outside && bad { proptest::option::weighted(0.05, (any::<bool>(), any::<i32>())).boxed() } else { Just(None).boxed() })
        .prop_map(move |(kind, before, sessions, after, conv, cp, also, real)| Hist { kind, before, sessions, after, conv, conv_panics: cp && bad, fail_from: None, also, real }).boxed()
}

fn judge(h: &Hist, cats: &[Cat], mut o: Outcome, pool: &mut Pool) -> Outcome {
    let v = play(pool, h);
    if let Some((_, m)) = v.iter().find(|(c, _)| cats.contains(c)) { o.fail(m.clone()) }
    o
}
fn handled(h: &Hist) -> impl Iterator<Item = (&Sess, &Call, &Do)> {
    h.sessions.iter().filter(|s| s.open == Do::Ok).flat_map(|s| s.ops.iter().map(move |(c, d)| (s, c, d)))
}

macro_rules! hist_check {
    ($name:ident, $id:expr, $rule:expr, $q:expr, $t:expr, $gen:expr, $cats:expr, |$h:ident, $o:ident| $class:block) => {
        pub struct $name(pub Pool);
        impl Check for $name {
            type Case = Hist;
            fn id(&self) -> &'static str { $id }
            fn rule(&self) -> &'static str { $rule }
            fn assumptions(&self) -> Vec<&'static str> { vec!["sudo opens a plugin that is open again only after closing it", "a panic's payload has a destructor that does not panic itself", "errors' source chains are finite"] }
            fn cases(&self, t: Tier) -> u64 { t.pick($q, $t) }
            fn strategy(&self, _t: Tier) -> BoxedStrategy<Hist> { $gen }
            fn run(&mut self, $h: &Hist) -> Outcome {
                let mut $o = Outcome::new(false);
                $class
                let pool = &mut self.0;
                isolated(move || judge($h, $cats, $o, pool))
            }
        }
    };
}

hist_check!(C19, "C19", "some callback of the plugin panics in a session that was opened, or open itself panics", 32000, 800_000,
    hist(G { open: (6, 0, 1), ops: (3, 1, 2), close: true, versions: true, outside: true, sessions: 2, nops: 10, longest: 4, big: 2000, bad: true }),
    &[Cat::Ret, Cat::Life, Cat::Data], |h, o| {
        let is = |d: &Do| matches!(d, Do::Panic(_)) || matches!(d, Do::Err(e) if e.panics.is_some());
        for s in &h.sessions {
            if is(&s.open) { o.class("open panics"); o.nontrivial = true }
            if s.open == Do::Ok && is(&s.close_act) && s.close.is_some() { o.class("close panics"); o.nontrivial = true }
            if s.open == Do::Ok && is(&s.on_drop) && s.close.is_some() { o.class("drop panics"); o.nontrivial = true }
        }
        for (_, c, d) in handled(h) { if is(d) {
            o.nontrivial = true;
            o.class(match c { Call::Log(..) => "a log callback panics", Call::Win(..) => "change_winsize panics", Call::Version(_) => if h.kind == Kind::D { "show_version panics" } else { continue } });
        } }
    });

hist_check!(C20, "C20", "a callback of the plugin returns an error with a chain of at least two texts or text beyond letters", 32000, 800_000,
    hist(G { open: (2, 1, 0), ops: (1, 2, 0), close: false, versions: true, outside: false, sessions: 2, nops: 8, longest: 30, big: 400, bad: true }),
    &[Cat::Ret, Cat::Errors, Cat::Info], |h, o| {
        // the conversions a plugin's author may use directly
        let acts = h.sessions.iter().flat_map(|s| std::iter::once(&s.open).chain(s.ops.iter().map(|x| &x.1)));
        for a in acts { if let Do::Err(e) = a {
            let (a, b): (OpenStatus, LogStatus) = (Err::<(), _>(PE::new(e.clone())).into(), Err::<(), _>(PE::new(e.clone())).into());
            o.check(a as i32 == e.open.code() && b as i32 == e.log.code(), || format!("an error whose statuses are {:?} and {:?} converts to {} and {}", e.open, e.log, a as i32, b as i32));
        } }
        let odd = |e: &Er| e.texts.len() > 1 || e.texts.iter().any(|t| t.contains(|c: char| !c.is_ascii_alphanumeric()));
        for s in &h.sessions { if let Do::Err(e) = &s.open { o.nontrivial |= odd(e); o.class(format!("open: {:?}", e.open)) } }
        for (_, c, d) in handled(h) { if let Do::Err(e) = d {
            o.nontrivial |= odd(e);
            o.class(format!("log: {:?}", e.log));
            o.class_if(e.texts.len() > 3, "long chain");
            o.class_if(e.texts.iter().any(|t| t.contains('%')), "text with %");
            o.class_if(matches!(c, Call::Win(..)), "error from change_winsize");
        } }
    });

hist_check!(C21, "C21", "an open session with at least three log calls, one of them with data and one hint not plainly on", 40000, 1_000_000,
    hist(G { open: (20, 1, 0), ops: (6, 1, 0), close: false, versions: false, outside: false, sessions: 2, nops: 16, longest: 3, big: 131072, bad: false }),
    &[Cat::Ret, Cat::Data], |h, o| {
        for s in h.sessions.iter().filter(|s| s.open == Do::Ok) {
            let n = s.ops.iter().filter(|(c, _)| matches!(c, Call::Log(..))).count();
            let off = hints(&s.args).contains(&false);
            o.nontrivial |= n >= 3 && off && s.ops.iter().any(|(c, _)| matches!(c, Call::Log(_, b) if b.len() > 0));
            o.class_if(off, "a hint is off");
            for (c, _) in &s.ops { match c {
                Call::Log(k, b) => { let i = usize::from(*k % 5); o.class(format!("{} {}", HINT[i], if hints(&s.args)[i] { "on" } else { "off" })); o.class_if(b.len() > 4096, "large buffer") }
                Call::Win(..) => o.class("resize"),
                _ => (),
            } }
        }
        o.class(if h.kind.ignores_hints() { "plugin ignores hints" } else { "plugin respects hints" });
    });

hist_check!(C22, "C22", "more than one session, a failing open, a version request or calls outside a session", 32000, 800_000,
    hist(G { open: (5, 1, 1), ops: (6, 1, 1), close: false, versions: true, outside: true, sessions: 4, nops: 7, longest: 3, big: 400, bad: true }),
    &[Cat::Ret, Cat::Life, Cat::Info, Cat::Data], |h, o| {
        let failing = h.sessions.iter().any(|s| s.open != Do::Ok);
        let query = h.sessions.iter().any(|s| M::of(&s.args.command_info).raw("command").is_none());
        o.nontrivial = h.sessions.len() > 1 || failing || query || !h.before.is_empty() || !h.after.is_empty();
        o.class_if(h.sessions.len() > 1, "several sessions");
        o.class_if(failing, "failing open");
        o.class_if(query, "plain version request");
        o.class_if(h.real.is_some(), "sudo_pair's own version");
        o.class_if(h.also.is_some(), "two plugins in one library");
        o.class_if(h.sessions.iter().any(|s| s.ops.iter().any(|(c, _)| matches!(c, Call::Version(_)))), "version query");
    });

// ---- C30 ----
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Many { pub hists: Vec<Hist>, pub turns: Vec<u8> }
pub struct C30(pub Pool);
impl Check for C30 {
    type Case = Many;
    fn id(&self) -> &'static str { "C30" }
    fn rule(&self) -> &'static str { "calls to one plugin fall between calls of another plugin's session" }
    fn assumptions(&self) -> Vec<&'static str> { vec!["sudo opens a plugin that is open again only after closing it", "sudo makes one call at a time"] }
    fn cases(&self, t: Tier) -> u64 { t.pick(24000, 800_000) }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<Many> {
        let one = || hist(G { open: (6, 1, 1), ops: (6, 2, 1), close: true, versions: true, outside: true, sessions: 3, nops: 8, longest: 3, big: 2000, bad: true });
        (vec(one(), 2..=4), select(vec![vec![Kind::A, Kind::B, Kind::C, Kind::D], vec![Kind::D, Kind::A, Kind::B, Kind::C], vec![Kind::B, Kind::A, Kind::D, Kind::C], vec![Kind::B, Kind::D, Kind::A, Kind::C]]), vec(any::<u8>(), 0..80))
            .prop_map(|(mut hists, kinds, turns)| {
                for (h, k) in hists.iter_mut().zip(kinds) { h.kind = k; h.also = None; h.real = None; h.fail_from = None }
                Many { hists, turns }
            }).boxed()
    }
    fn run(&mut self, c: &Many) -> Outcome {
        isolated(|| {
            let mut o = Outcome::new(false);
            let mut pools: Vec<Pool> = c.hists.iter().map(|_| Pool::new()).collect();
            let s = script();
            s.fail_from = None; s.calls = 0; s.on_drop = Do::Ok;
            let mut ps: Vec<Player> = pools.iter_mut().zip(&c.hists).enumerate().map(|(i, (p, h))| Player::new(p, h, i as i32)).collect();
            let (mut out, mut last, mut done, mut t) = (vec![], None, 0u32, 0usize);
            let mut open = 0;
            while done.count_ones() < ps.len() as u32 {
                // whose turn it is; after the schedule's end each plays to its end
                let i = c.turns.get(t).map_or_else(|| done.trailing_ones() as usize, |x| *x as usize % ps.len());
                t += 1;
                if done >> i & 1 == 1 { continue }
                if !ps[i].step(&mut out) { done |= 1 << i; continue }
                // a message through another plugin's function, or through one sudo withheld
                if let Some(p) = script().prints.iter().find(|p| p.0 > 255 || p.0 < 0) { out.push((Cat::Errors, format!("plugin {} speaks through another's message function: {:?}", i, p))) }
                if !ps[i].printf() && !script().prints.is_empty() { out.push((Cat::Errors, format!("plugin {} has no message function, yet says {:?}", i, script().prints))) }
                if let Some((_, m)) = out.first() { o.fail(format!("with {} plugins, {:?}: {}", ps.len(), c.hists[i].kind, m)); return o }
                o.nontrivial |= last.map_or(false, |l| l != i) && ps.iter().enumerate().any(|(j, p)| j != i && p.live());
                open = open.max(ps.iter().filter(|p| p.live()).count());
                last = Some(i);
            }
            o.class(format!("{} open at once", open));
            o
        })
    }
}
