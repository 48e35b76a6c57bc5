//! C24: the Rust declarations against a C compiler's view of sudo's header.

use crate::bind::*;
use crate::iso::isolated;
use crate::probe::*;
use crate::sig::seen;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use vcore::gen::*;
use vcore::{Check, Outcome, Tier, B};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Do { Log(u8, B), Win(u32, u32), Version(i32) }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum V24 {
    /// Members written by one side are read by the other.
    Layout { binding: usize, strukt: usize, values: Vec<u64> },
    /// C calls a member implemented in Rust.
    Call { binding: usize, strukt: usize, member: usize, words: Vec<u64>, ret: u64 },
    Alias { binding: usize, alias: usize, words: Vec<u64>, ret: u64 },
    /// Rust calls what sudo provides.
    Host { binding: usize, what: usize, words: Vec<u64>, ret: u64 },
    Const { binding: usize, konst: usize },
    Version { major: u32, minor: u32, version: u32 },
    /// 0-3 the empty plugins, 4 the harness's, 5-6 sudo_pair's, 7-8 the example's.
    Descriptor { which: usize, alloc: u64 },
    Session { minor: u32, tags: Vec<B>, argv: Vec<B>, ops: Vec<Do>, close: Option<(i32, i32)> },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C { header: u8, v: V24 }

pub struct C24 { b: Vec<Binding> }
impl C24 { pub fn new() -> Self { C24 { b: all() } } }

const EVENT: usize = 4;
const HOSTED: [&str; 12] = ["sudo_conv_t", "sudo_printf_t", "set", "add", "del", "pending", "fd", "setbase", "loopbreak", "free", "hook", "callback"];
fn edges() -> BoxedStrategy<u64> {
    prop_oneof![2 => any::<u64>(), 2 => any::<u32>().prop_map(u64::from), 2 => select(vec![0u64, 1, 2, 127, 128, 255, 256, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, u64::MAX, 1 << 63, (1 << 63) - 1])].boxed()
}

/// (structure, callbacks that are implemented) of each descriptor.
fn described(which: usize) -> (usize, &'static [&'static str], u64) {
    const IO: &[&str] = &["open", "close", "show_version", "log_ttyin", "log_ttyout", "log_stdin", "log_stdout", "log_stderr", "change_winsize"];
    match which { 0 => (5, &[], 1), 1 => (6, &[], 2), 2 => (7, &[], 3), 3 => (8, &[], 4), 4..=6 => (6, IO, 2), _ => (8, &["open", "check", "show_version"], 4) }
}

impl Check for C24 {
    type Case = C;
    fn id(&self) -> &'static str { "C24" }
    fn rule(&self) -> &'static str { "values were passed between C and Rust: a member, an argument, a constant, a descriptor or a session" }
    fn assumptions(&self) -> Vec<&'static str> { vec!["the declarations for other architectures are compiled for this one: member order, kinds and signatures are compared, not that machine's sizes", "sudo 1.9's header with API 1.17 is the reference, besides the repository's copy"] }
    fn cases(&self, t: Tier) -> u64 { t.pick(60000, 1_500_000) }
    fn fixed(&self, _t: Tier) -> Vec<C> {
        let mut v = vec![];
        for (i, b) in self.b.iter().enumerate() {
            for (s, x) in b.structs.iter().enumerate() {
                v.push(V24::Layout { binding: i, strukt: s, values: (1..20).map(|k| k * 0x0101_0101_0101_0101 + 0x80).collect() });
                for (m, y) in x.members.iter().enumerate() { if y.record.is_some() { for ret in [7, u64::MAX] { v.push(V24::Call { binding: i, strukt: s, member: m, words: (0..12).map(|k| k * 0x1111_1111_1111 + 0x8000_0005).collect(), ret }) } } }
            }
            for a in 0..b.aliases.len() { v.push(V24::Alias { binding: i, alias: a, words: (0..6).map(|k| !(k * 77)).collect(), ret: !4 }) }
            for h in 0..HOSTED.len() { v.push(V24::Host { binding: i, what: h, words: (0..6).map(|k| !(k * 77)).collect(), ret: !4 }) }
            for k in 0..b.consts.len() { v.push(V24::Const { binding: i, konst: k }) }
        }
        for which in 0..9 { v.push(V24::Descriptor { which, alloc: 0x1234_5678_9abc_def0 }) }
        v.into_iter().flat_map(|v| [C { header: 0, v: v.clone() }, C { header: 1, v }]).collect()
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<C> {
        let (nb, ns) = (self.b.len(), self.b[0].structs.len());
        let fns: Vec<(usize, usize)> = self.b[0].structs.iter().enumerate().flat_map(|(s, x)| x.members.iter().enumerate().filter(|(_, m)| m.record.is_some()).map(move |(m, _)| (s, m))).collect();
        let (na, nc) = (self.b[0].aliases.len(), self.b[0].consts.len());
        let w = || vec(edges(), 12);
        let op = prop_oneof![6 => (0u8..5, data(300)).prop_map(|(k, b)| Do::Log(k, b)), 2 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| Do::Win(a, b)), 1 => any::<i32>().prop_map(Do::Version)];
        (0u8..2, prop_oneof![
            4 => (0..nb, 0..ns, vec(edges(), 20)).prop_map(|(binding, strukt, values)| V24::Layout { binding, strukt, values }),
            6 => (0..nb, select(fns), w(), edges()).prop_map(|(binding, (strukt, member), words, ret)| V24::Call { binding, strukt, member, words, ret }),
            2 => (0..nb, 0..na, w(), edges()).prop_map(|(binding, alias, words, ret)| V24::Alias { binding, alias, words, ret }),
            3 => (0..nb, 0..HOSTED.len(), w(), edges()).prop_map(|(binding, what, words, ret)| V24::Host { binding, what, words, ret }),
            1 => (0..nb, 0..nc).prop_map(|(binding, konst)| V24::Const { binding, konst }),
            2 => (any::<u32>(), any::<u32>(), any::<u32>(), any::<bool>()).prop_map(|(a, b, version, small)| if small { V24::Version { major: a % 8, minor: b % 40, version } } else { V24::Version { major: a, minor: b, version } }),
            1 => (0usize..9, edges()).prop_map(|(which, alloc)| V24::Descriptor { which, alloc }),
            6 => (9u32..50, vec(cstr(12), 5), vec(cstr(10), 0..6), vec(op, 0..12), proptest::option::weighted(0.9, (any::<i32>(), any::<i32>()))).prop_map(|(minor, tags, argv, ops, close)| V24::Session { minor, tags, argv, ops, close }),
        ]).prop_map(|(header, v)| C { header, v }).boxed()
    }
    fn run(&mut self, case: &C) -> Outcome {
        let host = if case.header == 0 { PIN } else { REP };
        let bs = &self.b;
        let mut o = Outcome::new(true);
        isolated(move || {
            run(bs, host, &case.v, &mut o);
            o
        })
    }
}

fn run(bs: &[Binding], host: Host, v: &V24, o: &mut Outcome) {
    match v {
        V24::Layout { binding, strukt, values } => {
            let b = &bs[*binding % bs.len()];
            let k = *strukt % b.structs.len();
            let s = &b.structs[k];
            o.class(format!("layout of {}", s.name));
            let (n, a) = unsafe { ((host.size)(k as i32), (host.align)(k as i32)) };
            o.check(s.size == n && s.align == a, || format!("{}: {} is {} bytes aligned to {}, sudo's {} to {}", b.name, s.name, s.size, s.align, n, a));
            let mut mem = vec![0u64; 64];
            for (m, x) in s.members.iter().enumerate() {
                let p = mem.as_mut_ptr();
                let (_, len, off) = host.read(k, p.cast(), m);
                o.check(len == x.len && off == (x.off)(p.cast()), || format!("{}: {}.{} is {} bytes at {}, sudo's {} at {}", b.name, s.name, x.name, x.len, (x.off)(p.cast()), len, off));
            }
            if !matches!(o.verdict, vcore::Verdict::Pass) { return }
            // C writes, Rust reads; then the other way round
            for (m, _) in s.members.iter().enumerate() { unsafe { (host.set)(k as i32, mem.as_mut_ptr().cast(), m as i32, values[m % values.len()]); } }
            for (m, x) in s.members.iter().enumerate() {
                let (w, _, _) = host.read(k, mem.as_ptr().cast(), m);
                let g = (x.get)(mem.as_ptr().cast());
                o.check(g == w, || format!("{}: sudo stored {:#x} in {}.{}, Rust reads {:#x}", b.name, w, s.name, x.name, g));
            }
            let mut mem = vec![0u64; 64];
            for (m, x) in s.members.iter().enumerate() { (x.set)(mem.as_mut_ptr().cast(), values[(m + 7) % values.len()]) }
            for (m, x) in s.members.iter().enumerate() {
                let (w, _, _) = host.read(k, mem.as_ptr().cast(), m);
                let g = (x.get)(mem.as_ptr().cast());
                o.check(g == w, || format!("{}: Rust stored {:#x} in {}.{}, sudo reads {:#x}", b.name, g, s.name, x.name, w));
            }
        }
        V24::Call { binding, strukt, member, words, ret } => {
            let b = &bs[*binding % bs.len()];
            let s = &b.structs[*strukt % b.structs.len()];
            let m = &s.members[*member % s.members.len()];
            let Some((record, sig)) = m.record else { o.nontrivial = false; return };
            // untyped in C, so there's nothing to call it with
            if m.name == "hook_fn" { o.check((m.kind)() == "P", || format!("hook_fn is a {}", (m.kind)())); return }
            o.class(format!("calls of {}", s.name));
            let mut mem = vec![0u64; 64];
            record(mem.as_mut_ptr().cast());
            *seen() = crate::sig::Seen { calls: 0, words: vec![], ret: *ret };
            let (r, e, want) = host.invoke(&format!("{}.{}", s.name, m.name), mem.as_mut_ptr().cast(), words);
            called(o, &format!("{}: {}.{}", b.name, s.name, m.name), &sig(), &want, &e, r, *ret);
        }
        V24::Alias { binding, alias, words, ret } => {
            let b = &bs[*binding % bs.len()];
            let a = &b.aliases[*alias % b.aliases.len()];
            o.class("calls of callback types");
            *seen() = crate::sig::Seen { calls: 0, words: vec![], ret: *ret };
            let (r, e, want) = host.invoke(a.name, (a.recorder)() as *mut _, words);
            called(o, &format!("{}: {}", b.name, a.name), &(a.sig)(), &want, &e, r, *ret);
        }
        V24::Host { binding, what, words, ret } => {
            let b = &bs[*binding % bs.len()];
            let what = HOSTED[*what % HOSTED.len()];
            o.class(format!("plugin calls {}", what));
            unsafe { host.ret.write(*ret); host.seen.write([0; 8]); }
            let narrow = |k: char, w: u64| match k { 'I' => w as i32 as i64 as u64, 'U' => w as u32 as u64, _ => w };
            let check = |o: &mut Outcome, got: String, want: &str, r: u64| {
                o.check(got == want, || format!("{}: {} is declared {}, sudo's is {}", b.name, what, got, want));
                let (args, res) = want.split_once('>').expect("signature");
                let e: Vec<u64> = args.chars().zip(words).map(|(k, w)| narrow(k, *w)).collect();
                let g = unsafe { host.seen.read()[..e.len()].to_vec() };
                o.check(g == e, || format!("{}: {} called with {:x?}, sudo saw {:x?}", b.name, what, e, g));
                if res == "I" { o.check(r as i32 == *ret as i32, || format!("{}: {} answered {}, Rust saw {}", b.name, what, *ret as i32, r as i32)) }
            };
            match what {
                "sudo_conv_t" => { let r = (b.conv.1)(host.given(what) as usize, words); check(o, (b.conv.0)(), "IPPP>I", r) }
                "sudo_printf_t" => { let r = (b.printf)(host.given(what) as usize, words); check(o, "IPIP>I".into(), "IPIP>I", r) }
                "hook" => for (n, sig, call) in &b.hooks {
                    unsafe { host.seen.write([0; 8]) }
                    let r = call(host.given("register_hook") as usize, words);
                    o.class_if(n.starts_with("io"), "register_hook");
                    check(o, sig(), "P>I", r)
                },
                "callback" => for m in [2, 3] {
                    let x = &b.structs[2].members[m];
                    let (Some((_, sig)), Some(call)) = (x.record, x.call) else { continue };
                    unsafe { host.seen.write([0; 8]) }
                    let r = call(host.given("sudo_conv_callback").cast(), words);
                    check(o, sig(), "IP>I", r)
                },
                _ => {
                    let Some(x) = b.structs[EVENT].members.iter().find(|m| m.name == what) else { o.fail(format!("sudo_plugin_event has no {}", what)); return };
                    let (Some((_, sig)), Some(call)) = (x.record, x.call) else { return };
                    let want = match what { "set" => "PIIPP>I", "add" => "PP>I", "pending" => "PIP>I", "setbase" => "PP>V", "loopbreak" | "free" => "P>V", _ => "P>I" };
                    let r = call(host.given("sudo_plugin_event").cast(), words);
                    check(o, sig(), want, r)
                }
            }
        }
        V24::Const { binding, konst } => {
            let b = &bs[*binding % bs.len()];
            let (n, v) = b.consts[*konst % b.consts.len()];
            o.class("constants");
            let w = host.constant(n);
            o.check(v == w, || format!("{}: {} is {}, sudo's {}", b.name, n, v, w));
        }
        V24::Version { major, minor, version } => {
            use sudo_plugin_sys as s;
            o.class("version arithmetic");
            unsafe {
                let (w, g) = ((host.mk)(*major, *minor), s::sudo_api_mkversion(*major, *minor));
                o.check(w == g, || format!("version {}.{} is {:#x}, sudo's {:#x}", major, minor, g, w));
                let (w, g) = (((host.major)(*version), (host.minor)(*version)), (s::sudo_api_version_get_major(*version), s::sudo_api_version_get_minor(*version)));
                o.check(w == g, || format!("{:#x} is {:?}, sudo's {:?}", version, g, w));
            }
            let (w, g) = (host.constant("SUDO_API_VERSION"), i64::from(s::SUDO_API_VERSION));
            o.check(w == g, || format!("SUDO_API_VERSION is {:#x}, sudo's {:#x}", g, w));
        }
        V24::Descriptor { which, alloc } => {
            use sudo_plugin_sys as s;
            let (k, own, ty) = described(*which);
            let mut mem = vec![0xffff_ffff_ffff_ffffu64; 64];
            let dir = std::path::PathBuf::from(std::env::var_os("VERIF_PLUGIN_DIR").expect("VERIF_PLUGIN_DIR"));
            let at = mem.as_mut_ptr();
            let (p, size) = unsafe { match which {
                0 => { at.cast::<s::policy_plugin>().write(s::policy_plugin::empty()); (at.cast(), std::mem::size_of::<s::policy_plugin>()) }
                1 => { at.cast::<s::io_plugin>().write(s::io_plugin::empty()); (at.cast(), std::mem::size_of::<s::io_plugin>()) }
                2 => { at.cast::<s::audit_plugin>().write(s::audit_plugin::empty()); (at.cast(), std::mem::size_of::<s::audit_plugin>()) }
                3 => { at.cast::<s::approval_plugin>().write(s::approval_plugin::empty()); (at.cast(), std::mem::size_of::<s::approval_plugin>()) }
                4 => (plugin(), std::mem::size_of::<s::io_plugin>()),
                _ => {
                    let (file, name) = if *which < 7 { ("libsudo_pair.so", "sudo_pair") } else { ("libdeny_everything.so", "deny_everything") };
                    match load(&dir.join(if *which % 2 == 1 { "debug" } else { "release" }).join(file), name) { Ok(x) => x, Err(e) => { o.fail(e); return } }
                }
            } };
            let name = ["an empty policy plugin", "an empty I/O plugin", "an empty audit plugin", "an empty approval plugin", "a plugin of the macro", "sudo_pair", "sudo_pair", "deny_everything", "deny_everything"][*which];
            o.class(format!("descriptor of {}", name));
            let n = unsafe { (host.size)(k as i32) };
            o.check(size >= n, || format!("{} takes {} bytes, sudo accesses {}", name, size, n));
            o.check(p as usize % 8 == 0, || format!("{} isn't aligned", name));
            let members = &bs[0].structs[k].members;
            for (m, x) in members.iter().enumerate() {
                let (g, _, _) = host.read(k, p, m);
                match x.name {
                    "type_" => o.check(g == ty, || format!("{} says its type is {}, not {}", name, g, ty)),
                    "version" => o.check(g as i64 == host.constant("SUDO_API_VERSION"), || format!("{} says its version is {:#x}", name, g)),
                    c if own.contains(&c) => o.check(g != 0, || format!("{} has no {}", name, c)),
                    c => o.check(g == 0, || format!("{} claims to have {}: {:#x}", name, c, g)),
                }
            }
            // sudo stores its event allocator in the descriptor
            if let Some(m) = members.iter().position(|m| m.name == "event_alloc") {
                unsafe { (host.set)(k as i32, p, m as i32, *alloc); }
                let (g, _, _) = host.read(k, p, m);
                o.check(g == *alloc, || format!("{} does not keep its event allocator", name));
            }
        }
        V24::Session { minor, tags, argv, ops, close } => {
            o.class("session through a descriptor");
            let mut events = vec![];
            let call = |what: &str, w: &[u64]| host.invoke(&format!("io_plugin.{}", what), plugin(), w).0 as i32;
            let tag = |i: usize| { let mut t = b"tag=".to_vec(); t.extend_from_slice(&tags[i]); t };
            let list = |i: usize, v: &[&str]| { let mut x: Vec<Vec<u8>> = v.iter().map(|s| s.as_bytes().to_vec()).collect(); x.insert(i % (x.len() + 1), tag(i)); Vector::new(&x) };
            let settings = list(0, &["plugin_dir=/usr/lib/sudo/", "plugin_path=probe.so", "progname=sudo"]);
            let user = list(1, &["user=alice", "uid=1000", "gid=1000", "euid=0", "egid=1000", "groups=1000,27", "pid=77", "ppid=76", "pgid=77", "sid=70", "tcpgid=77", "cwd=/home/alice", "host=box", "lines=24", "cols=80"]);
            let command = list(2, &["command=/bin/ls", "runas_uid=0", "runas_gid=0", "runas_groups=0"]);
            let env = list(3, &["HOME=/root", "PATH=/bin"]);
            let opts = list(4, &["opt=1"]);
            let args: Vec<Vec<u8>> = argv.iter().map(|a| a.to_vec()).collect();
            let av = Vector::new(&args);
            let mut err = 0u64;
            let err = std::ptr::addr_of_mut!(err) as u64;
            let r = call("open", &[u64::from(1u32 << 16 | minor), host.given("sudo_conv_t") as u64, vp_printf as usize as u64, settings.at(), user.at(), command.at(), args.len() as u64, av.at(), env.at(), opts.at(), err]);
            o.check(r == 1, || format!("open returned {}: {:?}", r, rec().prints));
            let want = tags.iter().map(|t| Some(t.to_vec())).collect();
            events.push(Event::Open { version: format!("1.{}", minor), tags: want, argv: args.clone() });
            for op in ops {
                let r = match op {
                    Do::Log(k, b) => { events.push(Event::Log(*k, b.to_vec())); call(["log_ttyin", "log_ttyout", "log_stdin", "log_stdout", "log_stderr"][usize::from(*k % 5)], &[b.as_ptr() as u64, b.len() as u64, err]) }
                    Do::Win(l, c) => { events.push(Event::Win(u64::from(*l), u64::from(*c))); call("change_winsize", &[u64::from(*l), u64::from(*c), err]) }
                    Do::Version(v) => { events.push(Event::Version(*v != 0)); call("show_version", &[*v as i64 as u64]) }
                };
                o.check(r == 1, || format!("{:?} returned {}", op, r));
            }
            if let Some((a, b)) = close { events.push(Event::Close(*a, *b)); call("close", &[*a as i64 as u64, *b as i64 as u64]); }
            let got = &rec().events;
            if let Some(i) = (0..events.len().max(got.len())).find(|i| events.get(*i) != got.get(*i)) {
                o.fail(format!("call {} through the descriptor: the plugin saw {:?}, sudo made {:?}", i, got.get(i), events.get(i)));
            }
        }
    }
}

fn called(o: &mut Outcome, what: &str, sig: &str, want: &str, e: &[u64], r: u64, ret: u64) {
    o.check(sig == want, || format!("{} is declared {}, sudo's is {}", what, sig, want));
    let s = seen();
    o.check(s.calls == 1, || format!("{} was called {} times", what, s.calls));
    o.check(s.words == e, || format!("{} called with {:x?}, Rust saw {:x?}", what, e, s.words));
    let w = if want.ends_with('V') { return } else if want.ends_with('I') { ret as i32 as i64 as u64 } else { ret };
    o.check(r == w, || format!("{} answered {:x}, sudo saw {:x}", what, w, r));
}
