//! C14-C18, C23: option vectors, their conversion, the environment built
//! from them, versions, and the message handles.

use crate::gen::*;
use crate::guard::Pool;
use crate::hist::{printed, trimmed};
use crate::host::*;
use crate::iso::isolated;
use crate::model::*;
use crate::probe::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::rc::Rc;
use sudo_plugin::errors::Error;
use sudo_plugin::options::settings::NetAddr;
use sudo_plugin::prelude::*;
use vcore::bytes::show;
use vcore::gen::*;
use vcore::{Check, Outcome, Tier, B};

// ---- C14 ----
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct V14 { entries: Option<Vec<B>>, probes: Vec<B>, low: bool }
pub struct C14(pub Pool);

fn key() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        6 => select(vec!["a", "b", "ab", "key", "keyx", "ke", "", "uid", "A"]).prop_map(|s| s.as_bytes().to_vec()),
        1 => cstr(12).prop_map(|b| b.0),
        1 => select(vec![&b"\x80"[..], b"a\xff", b"\xc3\xa9", b"\xc3"]).prop_map(<[u8]>::to_vec),
    ].prop_map(|mut k: Vec<u8>| { k.retain(|c| *c != b'='); k }).boxed()
}
fn entry() -> BoxedStrategy<B> {
    let val = prop_oneof![
        6 => cstr(30), 1 => long(70_000), 2 => select(vec!["", "=", "==x", "a=b", "v"]).prop_map(B::from),
        1 => (cbyte(), 1000usize..5000).prop_map(|(c, n)| B(vec![c; n])),
        1 => vec(0x80u8..=0xff, 1..5).prop_map(B),
    ];
    prop_oneof![
        8 => (key(), val.clone()).prop_map(|(k, v)| { let mut e = k; e.push(b'='); e.extend_from_slice(&v); B(e) }),
        2 => key().prop_map(B),
        1 => val,
    ].boxed()
}
impl Check for C14 {
    type Case = V14;
    fn id(&self) -> &'static str { "C14" }
    fn rule(&self) -> &'static str { "the vector repeats a key, has an entry without '=', an empty key or value, a value with '=' or bytes that aren't UTF-8" }
    fn cases(&self, t: Tier) -> u64 { t.pick(60000, 1_500_000) }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<V14> {
        (prop_oneof![30 => vec(entry(), 0..12).prop_map(Some), 1 => vec(entry(), 0..150).prop_map(Some), 1 => (len(5000), entry()).prop_map(|(n, e)| { let mut v: Vec<B> = (0..n).map(|i| B::from(format!("k{}={}", i, i))).collect(); v.push(e); Some(v) }), 1 => Just(None)], vec(prop_oneof![key().prop_map(B), cstr(8)], 0..6), any::<bool>())
            .prop_map(|(entries, probes, low)| V14 { entries, probes, low }).boxed()
    }
    fn run(&mut self, c: &V14) -> Outcome {
        let mut o = Outcome::new(false);
        let empty = vec![];
        let e = c.entries.as_ref().unwrap_or(&empty);
        let m = M::of(e);
        let odd = |x: &B| { let n = x.iter().filter(|b| **b == b'=').count(); n != 1 || x[0] == b'=' || x[x.len() - 1] == b'=' || std::str::from_utf8(x).is_err() };
        o.nontrivial = m.0.len() < e.len() || e.iter().any(odd);
        o.class_if(m.0.len() < e.len(), "repeated key");
        o.class_if(e.iter().any(|x| !x.contains(&b'=')), "entry without =");
        o.class_if(c.entries.is_none(), "NULL vector");
        o.class_if(e.is_empty() && c.entries.is_some(), "empty vector");
        let pool = &mut self.0;
        isolated(move || {
            pool.reset();
            let p: *mut *mut libc::c_char = c.entries.as_ref().map_or(std::ptr::null_mut(), |e| pool.vector(e, c.low));
            let r = catch_unwind(AssertUnwindSafe(|| {
                let map = unsafe { OptionMap::from_raw(p as *const *const libc::c_char) };
                // nothing may refer to sudo's memory
                for (k, v) in &m.0 {
                    o.check(map.get_bytes(k) == Some(&v[..]), || format!("\"{}\" looked up \"{:?}\", not \"{}\"", show(k), map.get_bytes(k).map(show), show(v)));
                    if let Ok(k) = std::str::from_utf8(k) {
                        let want = std::str::from_utf8(v).ok();
                        o.check(map.get_str(k) == want, || format!("\"{}\" as a string is {:?}, not {:?}", k, map.get_str(k), want));
                        let got = map.get::<String>(k).ok();
                        o.check(got.as_deref() == want, || format!("\"{}\" converts to the string {:?}, not {:?}", k, got, want));
                    }
                }
                let mut absent: Vec<Vec<u8>> = c.probes.iter().map(|b| b.0.clone()).collect();
                for e in e {
                    absent.push(e.to_vec());
                    for cut in [e.len() / 2, e.len().saturating_sub(1)] { absent.push(e[..cut].to_vec()) }
                    if let Some(i) = e.iter().position(|b| *b == b'=') { absent.push(e[i + 1..].to_vec()); absent.push(e[..=i].to_vec()) }
                }
                for k in absent {
                    if m.0.contains_key(&k) { continue }
                    o.check(map.get_bytes(&k).is_none(), || format!("\"{}\" is not in the vector but looked up \"{}\"", show(&k), show(map.get_bytes(&k).unwrap_or_default())));
                }
                o
            }));
            r.unwrap_or_else(|_| { let mut o = Outcome::new(false); o.fail("parsing or looking up panicked"); o })
        })
    }
}

// ---- C15 ----
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Ty { Bool, I8, U8, I16, U16, I32, U32, I64, U64, Str, Path, Net, LI8, LU8, LI16, LU16, LI32, LU32, LI64, LU64, LPath, LNet, SI32, SU32, SU64, SPath }
const TYS: [Ty; 26] = [Ty::Bool, Ty::I8, Ty::U8, Ty::I16, Ty::U16, Ty::I32, Ty::U32, Ty::I64, Ty::U64, Ty::Str, Ty::Path, Ty::Net, Ty::LI8, Ty::LU8, Ty::LI16, Ty::LU16, Ty::LI32, Ty::LU32, Ty::LI64, Ty::LU64, Ty::LPath, Ty::LNet, Ty::SI32, Ty::SU32, Ty::SU64, Ty::SPath];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct V15 { key: String, value: Option<B>, ty: Ty, others: Vec<B> }
pub struct C15(pub Pool);

/// (bits, signed) of the integer in a type.
fn width(t: Ty) -> Option<(i128, i128)> {
    let (b, s) = match t {
        Ty::I8 | Ty::LI8 => (8, true), Ty::U8 | Ty::LU8 => (8, false), Ty::I16 | Ty::LI16 => (16, true), Ty::U16 | Ty::LU16 => (16, false),
        Ty::I32 | Ty::LI32 | Ty::SI32 => (32, true), Ty::U32 | Ty::LU32 | Ty::SU32 => (32, false), Ty::I64 | Ty::LI64 => (64, true), Ty::U64 | Ty::LU64 | Ty::SU64 => (64, false),
        _ => return None,
    };
    Some(if s { (-(1 << (b - 1)), (1 << (b - 1)) - 1) } else { (0, (1i128 << b) - 1) })
}
fn paths(i: impl Iterator<Item = PathBuf>) -> String {
    let mut v: Vec<PathBuf> = i.map(|p| p.components().collect()).collect();
    v.sort();
    v.dedup();
    format!("{:?}", v)
}
fn expect15(t: Ty, s: &str) -> Option<String> {
    let scalar = matches!(t, Ty::I8 | Ty::U8 | Ty::I16 | Ty::U16 | Ty::I32 | Ty::U32 | Ty::I64 | Ty::U64);
    let set = matches!(t, Ty::SI32 | Ty::SU32 | Ty::SU64 | Ty::SPath);
    if let Some((lo, hi)) = width(t) {
        if scalar { return int(s, lo, hi).map(|v| v.to_string()) }
        let mut v: Vec<i128> = s.split(',').map(|e| int(e, lo, hi)).collect::<Option<_>>()?;
        if set { v.sort(); v.dedup() }
        return Some(format!("{:?}", v))
    }
    match t {
        Ty::Bool => boolean(s).map(|b| b.to_string()),
        Ty::Str | Ty::Path => Some(format!("{:?}", s)),
        Ty::Net => net(s).map(|n| format!("{:?}", n)),
        Ty::LNet => s.split(' ').map(net).collect::<Option<Vec<_>>>().map(|v| format!("{:?}", v)),
        _ => {
            // a set holds paths that are equal, such as / and //, once
            if set { return Some(paths(s.split(',').map(PathBuf::from))) }
            Some(format!("{:?}", s.split(',').collect::<Vec<_>>()))
        }
    }
}
fn actual15(m: &OptionMap, t: Ty, k: &str) -> Result<String, Error> {
    macro_rules! n { ($t:ty) => { m.get::<$t>(k).map(|v| v.to_string()) } }
    macro_rules! l { ($t:ty) => { m.get::<Vec<$t>>(k).map(|v| format!("{:?}", v)) } }
    macro_rules! s { ($t:ty) => { m.get::<HashSet<$t>>(k).map(|v| { let mut v: Vec<$t> = v.into_iter().collect(); v.sort(); format!("{:?}", v) }) } }
    let na = |n: &NetAddr| (n.addr, n.mask);
    match t {
        Ty::Bool => n!(bool), Ty::I8 => n!(i8), Ty::U8 => n!(u8), Ty::I16 => n!(i16), Ty::U16 => n!(u16), Ty::I32 => n!(i32), Ty::U32 => n!(u32), Ty::I64 => n!(i64), Ty::U64 => n!(u64),
        Ty::Str => m.get::<String>(k).map(|v| format!("{:?}", v)), Ty::Path => m.get::<PathBuf>(k).map(|v| format!("{:?}", v)),
        Ty::Net => m.get::<NetAddr>(k).map(|v| format!("{:?}", na(&v))), Ty::LNet => m.get::<Vec<NetAddr>>(k).map(|v| format!("{:?}", v.iter().map(na).collect::<Vec<_>>())),
        Ty::LI8 => l!(i8), Ty::LU8 => l!(u8), Ty::LI16 => l!(i16), Ty::LU16 => l!(u16), Ty::LI32 => l!(i32), Ty::LU32 => l!(u32), Ty::LI64 => l!(i64), Ty::LU64 => l!(u64), Ty::LPath => l!(PathBuf),
        Ty::SI32 => s!(i32), Ty::SU32 => s!(u32), Ty::SU64 => s!(u64),
        Ty::SPath => m.get::<HashSet<PathBuf>>(k).map(|v| paths(v.into_iter())),
    }
}
impl Check for C15 {
    type Case = V15;
    fn id(&self) -> &'static str { "C15" }
    fn rule(&self) -> &'static str { "a present value that is a list, negative, near or beyond a limit, or does not denote a value of its type" }
    fn assumptions(&self) -> Vec<&'static str> { vec!["whether numbers may carry a leading plus, or zero a minus, is not specified"] }
    fn cases(&self, t: Tier) -> u64 { t.pick(80000, 2_000_000) }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<V15> {
        let k = prop_oneof![3 => Just("key".to_string()), 1 => "[a-z_]{0,10}", 1 => "\\PC{0,6}"].prop_map(|s: String| s.replace(['=', '\0'], ""));
        (k, select(TYS.to_vec()), prop_oneof![3 => Just(true), 1 => Just(false)], prop_oneof![20 => Just(true), 1 => Just(false)], vec(entry(), 0..3)).prop_flat_map(|(key, ty, own, some, others)| {
            let s: BoxedStrategy<String> = match ty {
                _ if !own => prop_oneof![bool_text(), int_text(), net_text(), list(int_text(), ","), list(net_text(), " "), cstr(20).prop_map(|b| String::from_utf8_lossy(&b).into_owned())].boxed(),
                Ty::Bool => bool_text(),
                Ty::I8 | Ty::U8 | Ty::I16 | Ty::U16 | Ty::I32 | Ty::U32 | Ty::I64 | Ty::U64 => prop_oneof![6 => int_text(), 1 => list(int_text(), ",")].boxed(),
                Ty::Net => net_text(),
                Ty::LNet => list(net_text(), " "),
                Ty::Str | Ty::Path | Ty::LPath | Ty::SPath => prop_oneof![cstr(20).prop_map(|b| String::from_utf8_lossy(&b).into_owned()), list("[a-z/ ]{0,6}".boxed(), ",")].boxed(),
                _ => {
                    let (lo, hi) = width(ty).unwrap_or(U32);
                    prop_oneof![3 => list(int_text(), ","), 4 => vec(prop_oneof![3 => 0i128..100, 1 => select(vec![lo, hi, lo + 1, hi - 1])], 0..6).prop_map(|v| v.iter().map(i128::to_string).collect::<Vec<_>>().join(","))].boxed()
                }
            };
            bytes(s).prop_map(move |v| {
                let mut others = others.clone();
                others.retain(|e| e.split(|b| *b == b'=').next() != Some(key.as_bytes()));
                V15 { key: key.clone(), value: some.then(|| B(v)), ty, others }
            })
        }).boxed()
    }
    fn run(&mut self, c: &V15) -> Outcome {
        let mut o = Outcome::new(false);
        let text = c.value.as_ref().and_then(|v| std::str::from_utf8(v).ok());
        let want = text.and_then(|t| expect15(c.ty, t));
        o.nontrivial = c.value.is_some() && (want.is_none() || text.map_or(false, |t| t.contains([',', '-', '/']) || t.len() > 2));
        o.class(format!("{:?} {}", c.ty, if c.value.is_none() { "missing" } else if text.is_none() { "not UTF-8" } else if want.is_some() { "valid" } else { "invalid" }));
        let pool = &mut self.0;
        isolated(move || {
            pool.reset();
            let mut v = c.others.clone();
            if let Some(x) = &c.value { let mut e = c.key.clone().into_bytes(); e.push(b'='); e.extend_from_slice(x); v.insert(v.len() / 2, B(e)) }
            let map = unsafe { OptionMap::from_raw(pool.vector(&v, c.value.as_ref().map_or(0, |x| x.len()) % 2 == 1) as *const *const libc::c_char) };
            let got = match catch_unwind(AssertUnwindSafe(|| actual15(&map, c.ty, &c.key))) { Ok(g) => g, Err(_) => { o.fail(format!("{:?} as {:?} panics", c.value, c.ty)); return o } };
            match (&got, &want) {
                (Ok(g), Some(w)) => o.check(g == w, || format!("{:?} as {:?} is {}, not {}", c.value, c.ty, g, w)),
                (Ok(g), None) => o.fail(format!("{:?} as {:?} is taken for {}", c.value, c.ty, g)),
                (Err(e), Some(w)) => o.fail(format!("{:?} as {:?} is refused ({}) though it denotes {}", c.value, c.ty, e, w)),
                (Err(e), None) => match (&c.value, text) {
                    (None, _) => {
                        o.check(*e == Error::OptionMissing { key: c.key.clone() }, || format!("a missing {:?} is reported as {:?}", c.key, e));
                        o.check(e.to_string().contains(&c.key), || format!("the missing key {:?} isn't named: {}", c.key, e));
                    }
                    (Some(_), Some(t)) => {
                        o.check(*e == Error::OptionInvalid { key: c.key.clone(), value: t.to_string() }, || format!("the invalid value {:?} of {:?} is reported as {:?}", t, c.key, e));
                        o.check(e.to_string().contains(&c.key) && e.to_string().contains(t), || format!("the key {:?} and value {:?} aren't named: {}", c.key, t, e));
                    }
                    _ => (),
                },
            }
            o
        })
    }
}

// ---- C16, C17 ----
#[derive(Clone, Copy, Debug)]
enum F { Bool, U64, U32, I32, Str, Must, Path, LU32, LI32, Nets, Oct, Nice, Junk }

const SETTINGS: &[(&str, F)] = &[
    ("plugin_dir", F::Must), ("plugin_path", F::Must), ("progname", F::Must),
    ("bsdauth_type", F::Str), ("closefrom", F::U64), ("debug_flags", F::Str), ("debug_level", F::U64), ("ignore_ticket", F::Bool), ("implied_shell", F::Bool), ("login_class", F::Str),
    ("login_shell", F::Bool), ("max_groups", F::U64), ("network_addrs", F::Nets), ("noninteractive", F::Bool), ("preserve_environment", F::Bool), ("preserve_groups", F::Bool), ("prompt", F::Str),
    ("remote_host", F::Str), ("run_shell", F::Bool), ("runas_group", F::Str), ("runas_user", F::Str), ("selinux_role", F::Str), ("selinux_type", F::Str), ("set_home", F::Bool), ("sudoedit", F::Bool), ("timeout", F::Str),
    // not among the fields
    ("askpass", F::Path), ("cmnd_chroot", F::Path), ("cmnd_cwd", F::Path), ("intercept_ptrace", F::Bool), ("intercept_setid", F::Bool), ("update_ticket", F::Bool), ("bsd_auth_type", F::Str), ("close_from", F::U64),
];
const USER: &[(&str, F)] = &[
    ("cwd", F::Path), ("egid", F::U32), ("euid", F::U32), ("gid", F::U32), ("groups", F::LU32), ("host", F::Str), ("pgid", F::I32), ("pid", F::I32), ("ppid", F::I32), ("uid", F::U32), ("user", F::Str),
    ("umask", F::Str), ("cols", F::U64), ("lines", F::U64), ("sid", F::I32), ("tcpgid", F::I32), ("tty", F::Path),
    // not among the fields
    ("ttydev", F::U64), ("columns", F::U64), ("rows", F::U64), ("home", F::Path), ("hostname", F::Str),
];
const COMMAND: &[(&str, F)] = &[
    ("command", F::Path), ("runas_gid", F::U32), ("runas_uid", F::U32), ("runas_egid", F::U32), ("runas_euid", F::U32), ("umask", F::Oct), ("chroot", F::Str), ("closefrom", F::U64), ("cwd", F::Path),
    ("exec_background", F::Bool), ("execfd", F::U64), ("iolog_compress", F::Bool), ("iolog_group", F::Str), ("iolog_mode", F::Str), ("iolog_path", F::Str), ("iolog_stdin", F::Bool), ("iolog_stdout", F::Bool),
    ("iolog_stderr", F::Bool), ("iolog_ttyin", F::Bool), ("iolog_ttyout", F::Bool), ("iolog_user", F::Str), ("login_class", F::Str), ("nice", F::Nice), ("noexec", F::Bool), ("preserve_fds", F::LI32),
    ("preserve_groups", F::Bool), ("runas_groups", F::LU32), ("selinux_role", F::Str), ("selinux_type", F::Str), ("set_utmp", F::Bool), ("sudoedit", F::Bool), ("sudoedit_checkdir", F::Bool), ("sudoedit_follow", F::Bool),
    ("timeout", F::U64), ("umask_override", F::Bool), ("use_pty", F::Bool), ("utmp_user", F::Str),
    // not among the fields
    ("runas_user", F::Str), ("runas_group", F::Str), ("apparmor_profile", F::Str), ("cwd_optional", F::Bool), ("intercept", F::Bool), ("intercept_verify", F::Bool), ("iolog_flush", F::Bool), ("log_subcmds", F::Bool), ("rlimit_core", F::Str),
    ("source", F::Str), ("sudoedit_nfiles", F::U64),
];
const MUST_SETTINGS: &[&str] = &["plugin_dir", "plugin_path", "progname"];
const MUST_USER: &[&str] = &["cwd", "egid", "euid", "gid", "groups", "host", "pgid", "pid", "ppid", "uid", "user"];

fn good(f: F) -> BoxedStrategy<Vec<u8>> {
    let s: BoxedStrategy<String> = match f {
        F::Bool => select(vec!["true", "false"]).prop_map(String::from).boxed(),
        F::U64 => prop_oneof![5 => (0u64..70000), 1 => any::<u64>()].prop_map(|v| v.to_string()).boxed(),
        F::U32 => u32s().prop_map(|v| v.to_string()).boxed(),
        F::I32 => prop_oneof![5 => 1i32..100000, 1 => any::<i32>()].prop_map(|v| v.to_string()).boxed(),
        F::Must | F::Str => prop_oneof![1 => select(vec!["sudo", "sudoedit", "/usr/bin/sudoedit", "my-sudoedit", "sudoedit-1.9", "SUDOEDIT", "sudoedi", " sudoedit", "sudoedit ", "root", "true", "0", ""]).prop_map(B::from), 4 => utf8(20), 1 => long(5000).prop_map(|b| B::from(String::from_utf8_lossy(&b).into_owned()))].prop_map(|b| String::from_utf8_lossy(&b).into_owned()).boxed(),
        F::Path => return prop_oneof![2 => "/[a-z/. ]{0,20}".prop_map(String::into_bytes), 1 => cstr(30).prop_map(|b| b.0)].boxed(),
        F::LU32 => good_list(),
        F::LI32 => prop_oneof![6 => vec(0i32..5000, 1..5).boxed(), 1 => len(300).prop_flat_map(|n| vec(0i32..5000, n.max(1))).boxed()].prop_map(|v| v.iter().map(i32::to_string).collect::<Vec<_>>().join(",")).boxed(),
        F::Nets => vec((any::<[u8; 4]>(), any::<[u8; 16]>(), any::<bool>()), 1..4).prop_map(|v| v.iter().map(|(a, b, six)| if *six { format!("{}/{}", std::net::Ipv6Addr::from(*b), std::net::Ipv6Addr::from(*b)) } else { format!("{}/{}", std::net::Ipv4Addr::from(*a), std::net::Ipv4Addr::from(*a)) }).collect::<Vec<_>>().join(" ")).boxed(),
        F::Oct => prop_oneof![select(vec!["022", "0022", "077", "0", "00", "0777", "7777", "27", "002", "10"]).prop_map(String::from), (0u32..0o10000).prop_map(|v| format!("0{:o}", v))].boxed(),
        F::Nice => prop_oneof![4 => (0i32..20).prop_map(|v| v.to_string()), 1 => (-20i32..0).prop_map(|v| v.to_string())].boxed(),
        F::Junk => Just(String::new()).boxed(),
    };
    s.prop_map(String::into_bytes).boxed()
}
fn poor(f: F) -> BoxedStrategy<Vec<u8>> {
    match f {
        F::Bool => bytes(bool_text()), F::U64 | F::U32 | F::I32 => bytes(int_text()), F::Nice => bytes(int_text()), F::LU32 | F::LI32 => bytes(list(int_text(), ",")), F::Nets => bytes(list(net_text(), " ")),
        F::Oct => bytes(prop_oneof![int_text(), select(vec!["8", "9", "08", "0o22", "789", "rwx"]).prop_map(String::from)].boxed()),
        F::Must => good(f), F::Str | F::Path => prop_oneof![12 => cstr(40), 1 => long(9000)].prop_map(|b| b.0).boxed(), F::Junk => Just(vec![]).boxed(),
    }
}
/// A vector with some of the documented keys; `present` in 100 of each
/// optional one, `hole` in 1000 of missing or poor mandatory ones.
fn vector(t: &'static [(&'static str, F)], must: &'static [&'static str], present: u32, hole: u32) -> BoxedStrategy<Vec<B>> {
    let each: Vec<BoxedStrategy<Vec<B>>> = t.iter().map(|(k, f)| {
        let (k, f) = (*k, *f);
        let make = move |v: Vec<u8>| { let mut e = k.as_bytes().to_vec(); e.push(b'='); e.extend(v); B(e) };
        let one = good(f).prop_map(move |v| vec![make(v)]).boxed();
        let bad = poor(f).prop_map(move |v| vec![make(v)]).boxed();
        let two = (poor(f), good(f)).prop_map(move |(a, b)| vec![make(a), make(b)]).boxed();
        let bare = Just(vec![B(k.as_bytes().to_vec())]).boxed();
        if must.contains(&k) { prop_oneof![1000 => one, hole => bad, hole => Just(vec![]), hole => bare, 20 => two].boxed() }
        else { prop_oneof![100 - present => Just(vec![]), present * 8 / 10 => one, present * 3 / 10 => bad, 1 => two, 1 => bare].boxed() }
    }).collect();
    let names: Vec<&'static str> = t.iter().map(|x| x.0).collect();
    let unknown = (prop_oneof![2 => "[a-z_]{1,10}", 2 => select(names.clone()).prop_map(|k| format!("{}_", k)), 2 => select(names.clone()).prop_map(str::to_uppercase), 1 => select(names).prop_map(|k| k[..k.len() - 1].to_string()), 1 => Just("runas_groupsx".to_string())], cstr(8))
        .prop_map(|(k, v)| { let mut e = k.into_bytes(); e.push(b'='); e.extend_from_slice(&v); B(e) });
    (each, vec(unknown, 0..4), any::<u64>()).prop_map(|(e, u, s)| {
        let mut v: Vec<B> = e.into_iter().flatten().chain(u).collect();
        // a random order that keeps repeated keys in theirs or not, alike
        let mut r = s | 1;
        for i in (1..v.len()).rev() { r ^= r << 13; r ^= r >> 7; r ^= r << 17; v.swap(i, (r % (i as u64 + 1)) as usize) }
        v
    }).boxed()
}
fn env_args(present: u32, hole: u32) -> BoxedStrategy<Args> {
    let opts = prop_oneof![3 => vec(entry(), 0..4).prop_map(Some), 1 => Just(None)];
    (vector(SETTINGS, MUST_SETTINGS, present, hole), vector(USER, MUST_USER, present, hole), vector(COMMAND, &["command"], present, 0),
     prop_oneof![12 => vec(cstr(24), 1..6).boxed(), 1 => vec(long(9000), 1..4).boxed(), 1 => prop_oneof![len(300), len(300), 1usize..3000].prop_flat_map(|n| vec(cstr(8), n.max(1))).boxed()], vec(entry(), 0..6), opts, any::<bool>(), prop_oneof![Just(9u32), Just(15), Just(21), 9u32..70])
        .prop_map(|(settings, user_info, command_info, argv, env, options, low, minor)| Args { version: 1 << 16 | minor, settings, user_info, command_info, argv, env, options, low, no_printf: false })
        .prop_map(|mut a| {
            // sudo never reports the empty command, nor both a group vector and preserved groups, nor ids of -1
            a.command_info.retain(|e| e.len() > 8 || !e.starts_with(b"command"));
            if M::of(&a.command_info).raw("command").map_or(true, <[u8]>::is_empty) { a.command_info.push("command=/bin/x".into()) }
            let m = M::of(&a.command_info);
            if m.b("preserve_groups", false) { a.command_info.retain(|e| !e.starts_with(b"runas_groups=") && &e[..] != b"runas_groups") }
            else if m.l("runas_groups", U32).is_none() { a.command_info.retain(|e| !e.starts_with(b"runas_groups=") && &e[..] != b"runas_groups"); a.command_info.push("runas_groups=7,8".into()) }
            a
        }).boxed()
}

fn dbg<T: std::fmt::Debug>(t: T) -> String { format!("{:?}", t) }

/// Each field: name, expected, actual.
fn fields(a: &Args, e: &IoEnv) -> Vec<(String, String, String)> {
    let mut v: Vec<(String, String, String)> = vec![];
    let mut f = |n: &str, w: String, g: String| v.push((n.to_string(), w, g));
    let m = M::of(&a.settings);
    let s = &e.settings;
    for (k, g) in [("plugin_dir", dbg(&s.plugin_dir)), ("plugin_path", dbg(&s.plugin_path)), ("progname", dbg(&s.progname))] { f(k, dbg(m.s(k).unwrap_or_default()), g) }
    for (k, g) in [("bsdauth_type", dbg(&s.bsd_auth_type)), ("debug_flags", dbg(&s.debug_flags)), ("login_class", dbg(&s.login_class)), ("prompt", dbg(&s.prompt)), ("remote_host", dbg(&s.remote_host)), ("runas_group", dbg(&s.runas_group)), ("runas_user", dbg(&s.runas_user)),
        ("selinux_role", dbg(&s.selinux_role)), ("selinux_type", dbg(&s.selinux_type)), ("timeout", dbg(&s.timeout))] { f(k, dbg(m.s(k)), g) }
    for (k, g) in [("closefrom", dbg(&s.close_from)), ("debug_level", dbg(&s.debug_level)), ("max_groups", dbg(&s.max_groups))] { f(k, dbg(m.i(k, U64)), g) }
    for (k, g) in [("ignore_ticket", dbg(&s.ignore_ticket)), ("implied_shell", dbg(&s.implied_shell)), ("login_shell", dbg(&s.login_shell)), ("noninteractive", dbg(&s.noninteractive)), ("preserve_environment", dbg(&s.preserve_environment)), ("preserve_groups", dbg(&s.preserve_groups)),
        ("run_shell", dbg(&s.run_shell)), ("set_home", dbg(&s.set_home)), ("sudoedit", dbg(&s.sudoedit))] { f(k, dbg(m.b(k, false)), g) }
    f("network_addrs", dbg(m.nets("network_addrs").unwrap_or_default()), dbg(s.network_addrs.iter().map(|n| (n.addr, n.mask)).collect::<Vec<_>>()));
    for (k, x) in &m.0 { f(&format!("raw setting {}", show(k)), dbg(Some(&x[..])), dbg(s.raw.get_bytes(k))) }

    let m = M::of(&a.user_info);
    let u = &e.user_info;
    f("user cwd", dbg(m.raw("cwd").map(show)), dbg(Some(show(os(&u.cwd)))));
    for (k, g) in [("egid", dbg(Some(&u.egid))), ("euid", dbg(Some(&u.euid))), ("gid", dbg(Some(&u.gid))), ("uid", dbg(Some(&u.uid)))] { f(k, dbg(m.i(k, U32)), g) }
    for (k, g) in [("pgid", dbg(Some(&u.pgid))), ("pid", dbg(Some(&u.pid))), ("ppid", dbg(Some(&u.ppid)))] { f(k, dbg(m.i(k, I32)), g) }
    f("groups", dbg(m.l("groups", U32)), dbg(Some(&u.groups)));
    f("host", dbg(m.s("host")), dbg(Some(&u.host)));
    f("user", dbg(m.s("user")), dbg(Some(&u.user)));
    f("user umask", dbg(m.s("umask")), dbg(&u.umask));
    f("cols", dbg(m.i("cols", U64).unwrap_or(80)), dbg(&u.cols));
    f("lines", dbg(m.i("lines", U64).unwrap_or(24)), dbg(&u.lines));
    f("sid", dbg(m.i("sid", I32).unwrap_or(0)), dbg(&u.sid));
    f("tcpgid", dbg(m.i("tcpgid", I32).unwrap_or(-1)), dbg(&u.tcpgid));
    f("tty", dbg(m.raw("tty").map(show)), dbg(u.tty.as_ref().map(|p| show(os(p)))));
    for (k, x) in &m.0 { f(&format!("raw user info {}", show(k)), dbg(Some(&x[..])), dbg(u.raw.get_bytes(k))) }

    let m = M::of(&a.command_info);
    let c = &e.command_info;
    f("command", dbg(m.raw("command").map(show)), dbg(Some(show(os(&c.command)))));
    f("command cwd", dbg(m.raw("cwd").map(show)), dbg(c.cwd.as_ref().map(|p| show(os(p)))));
    let gid = m.i("runas_gid", U32).unwrap_or_else(|| i128::from(unsafe { libc::getegid() }));
    let uid = m.i("runas_uid", U32).unwrap_or_else(|| i128::from(unsafe { libc::geteuid() }));
    f("runas_gid", dbg(gid), dbg(&c.runas_gid));
    f("runas_uid", dbg(uid), dbg(&c.runas_uid));
    f("runas_egid", dbg(m.i("runas_egid", U32).unwrap_or(gid)), dbg(&c.runas_egid));
    f("runas_euid", dbg(m.i("runas_euid", U32).unwrap_or(uid)), dbg(&c.runas_euid));
    f("umask", dbg(m.oct("umask").unwrap_or(0o7777)), dbg(&c.umask));
    for (k, g) in [("chroot", dbg(&c.chroot)), ("iolog_group", dbg(&c.iolog_group)), ("iolog_mode", dbg(&c.iolog_mode)), ("iolog_path", dbg(&c.iolog_path)), ("iolog_user", dbg(&c.iolog_user)), ("login_class", dbg(&c.login_class)), ("selinux_role", dbg(&c.selinux_role)),
        ("selinux_type", dbg(&c.selinux_type)), ("utmp_user", dbg(&c.utmp_user))] { f(&format!("command {}", k), dbg(m.s(k)), g) }
    for (k, g) in [("closefrom", dbg(&c.close_from)), ("execfd", dbg(&c.exec_fd)), ("timeout", dbg(&c.timeout))] { f(&format!("command {}", k), dbg(m.i(k, U64)), g) }
    // beyond what a C int holds it is not specified
    let nice = dbg(&c.nice);
    let wide = m.i("nice", (-1 << 100, 1 << 100)).map_or(false, |v| v < I32.0 || v > I32.1);
    f("nice", if wide { nice.clone() } else { dbg(m.i("nice", I32)) }, nice);
    for (k, g) in [("exec_background", dbg(&c.exec_background)), ("iolog_compress", dbg(&c.iolog_compress)), ("iolog_stdin", dbg(&c.iolog_stdin)), ("iolog_stdout", dbg(&c.iolog_stdout)), ("iolog_stderr", dbg(&c.iolog_stderr)), ("iolog_ttyin", dbg(&c.iolog_ttyin)),
        ("iolog_ttyout", dbg(&c.iolog_ttyout)), ("noexec", dbg(&c.noexec)), ("preserve_groups", dbg(&c.preserve_groups)), ("set_utmp", dbg(&c.set_utmp)), ("sudoedit", dbg(&c.sudoedit)), ("sudoedit_follow", dbg(&c.sudoedit_follow)), ("use_pty", dbg(&c.use_pty))] { f(&format!("command {}", k), dbg(m.b(k, false)), g) }
    f("sudoedit_checkdir", dbg(m.b("sudoedit_checkdir", true)), dbg(c.sudoedit_checkdir));
    f("umask_override", dbg(m.s("umask_override").and_then(|t| boolean(&t))), dbg(c.umask_override));
    f("preserve_fds", dbg(m.l("preserve_fds", I32).unwrap_or_default()), dbg(&c.preserve_fds));
    f("runas_groups", dbg(m.l("runas_groups", U32)), dbg(&c.runas_groups));
    for (k, x) in &m.0 { f(&format!("raw command info {}", show(k)), dbg(Some(&x[..])), dbg(c.raw.get_bytes(k))) }

    for (k, x) in &M::of(&a.env).0 { f(&format!("environment {}", show(k)), dbg(Some(&x[..])), dbg(e.user_env.get_bytes(k))) }
    let none = vec![];
    for (k, x) in &M::of(a.options.as_ref().unwrap_or(&none)).0 { f(&format!("plugin option {}", show(k)), dbg(Some(&x[..])), dbg(e.plugin_options.get_bytes(k))) }
    f("cmdline", dbg(a.argv.iter().map(|x| show(x)).collect::<Vec<_>>()), dbg(e.cmdline.iter().map(|x| show(x.as_bytes())).collect::<Vec<_>>()));
    f("api_version", format!("{}.{}", a.version >> 16, a.version & 0xffff), e.api_version.to_string());
    v
}
fn os(p: &std::path::Path) -> &[u8] { std::os::unix::ffi::OsStrExt::as_bytes(p.as_os_str()) }

fn unusable(a: &Args) -> Vec<&'static str> {
    let (s, u) = (M::of(&a.settings), M::of(&a.user_info));
    let mut v: Vec<&'static str> = MUST_SETTINGS.iter().filter(|k| s.s(k).is_none()).copied().collect();
    v.extend(MUST_USER.iter().filter(|k| match **k {
        "cwd" => u.raw("cwd").is_none(), "groups" => u.l("groups", U32).is_none(), "host" | "user" => u.s(k).is_none(), "pgid" | "pid" | "ppid" => u.i(k, I32).is_none(), _ => u.i(k, U32).is_none(),
    }));
    v
}

/// Opens a probe with these arguments and looks at its environment.
fn look(pool: &mut Pool, a: &Args, f: impl Fn(&'static IoEnv) -> Vec<(String, String, String)> + 'static) -> (i32, Option<Vec<(String, String, String)>>) {
    let seen = Rc::new(RefCell::new(None));
    let to = seen.clone();
    script().look = Some(Box::new(move |e| *to.borrow_mut() = Some(f(e))));
    let r = Host { pool, plugin: Kind::A.plugin(), via: 0 }.open(a);
    script().look = None;
    let v = seen.borrow_mut().take();
    (r, v)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct V16 { args: Args, #[serde(default)] ids: Option<[u32; 4]> }
/// The ids (real and effective gid, real and effective uid) sudo itself runs with.
fn ids() -> BoxedStrategy<Option<[u32; 4]>> {
    let id = || prop_oneof![3 => Just(0u32), 2 => 1u32..70000, 1 => 1u32..0x7fff_ffff];
    prop_oneof![2 => Just(None), 1 => (id(), id(), id(), id()).prop_map(|(a, b, c, d)| Some([a, b, c, d]))].boxed()
}
fn become_ids(ids: Option<[u32; 4]>) {
    let Some([rg, eg, ru, eu]) = ids else { return };
    unsafe {
        assert_eq!(libc::setresgid(rg, eg, eg), 0, "setresgid");
        assert_eq!(libc::setresuid(ru, eu, eu), 0, "setresuid");
    }
}
pub struct C16(pub Pool);
impl Check for C16 {
    type Case = V16;
    fn id(&self) -> &'static str { "C16" }
    fn rule(&self) -> &'static str { "at least ten optional keys are given, or a mandatory one is missing or unusable" }
    fn assumptions(&self) -> Vec<&'static str> { vec!["plugin_dir and plugin_path are UTF-8", "sudo never reports an empty command, nor both preserve_groups and runas_groups", "whether numbers may carry a leading plus, or zero a minus, is not specified"] }
    fn cases(&self, t: Tier) -> u64 { t.pick(32000, 800_000) }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<V16> {
        (prop_oneof![6 => env_args(45, 2), 1 => env_args(3, 30), 1 => env_args(90, 0)], ids()).prop_map(|(args, ids)| V16 { args, ids }).boxed()
    }
    fn fixed(&self, _t: Tier) -> Vec<V16> {
        let mut args = Args::plain();
        args.command_info.push("nice=-5".into());
        vec![V16 { args, ids: None }, V16 { args: Args::plain(), ids: Some([11, 12, 13, 14]) }]
    }
    fn run(&mut self, c: &V16) -> Outcome {
        let mut o = Outcome::new(false);
        let a = &c.args;
        let missing = unusable(a);
        let n = [(&a.settings, SETTINGS), (&a.user_info, USER), (&a.command_info, COMMAND)].iter().map(|(v, t)| { let m = M::of(v); t.iter().filter(|(k, _)| m.raw(k).is_some()).count() }).sum::<usize>();
        o.nontrivial = n >= 25 || !missing.is_empty();
        o.class(if missing.is_empty() { format!("opened, {}0-{}9 keys", n / 10, n / 10) } else { "a mandatory entry is missing or unusable".into() });
        let pool = &mut self.0;
        let ids = c.ids;
        o.class_if(ids.map_or(false, |i| i[0] != i[1] || i[2] != i[3]), "sudo's own real and effective ids differ");
        isolated(move || {
            become_ids(ids);
            let b = a.clone();
            let (r, v) = look(pool, a, move |e| fields(&b, e));
            match v {
                None => {
                    o.check(!missing.is_empty(), || format!("nothing mandatory is missing, yet open returned {}: {}", r, show(&printed(3))));
                    let told = String::from_utf8_lossy(&printed(3)).into_owned();
                    let named = |k: &&str| told.split(|c: char| !c.is_ascii_alphanumeric() && c != '_').any(|t| t == *k);
                    o.check(r < 0, || format!("open returned {} though {:?} is missing", r, missing));
                    o.check(missing.iter().any(named), || format!("{:?} missing or unusable, reported as {:?}", missing, told));
                }
                Some(v) => {
                    o.check(missing.is_empty(), || format!("opened although {:?} is missing or unusable", missing));
                    o.check(r == 1, || format!("open returned {}", r));
                    for (n, w, g) in v {
                        if w == g { continue }
                        if n == "nice" && w.starts_with("Some(-") && g == "None" { o.known("nice-negative", "a negative nice value in command_info is dropped: CommandInfo.nice is unsigned"); continue }
                        o.fail(format!("{}: got {}, sudo said {}", n, g, w));
                    }
                }
            }
            o
        })
    }
}

fn invocation(a: &Args) -> Vec<u8> {
    let m = M::of(&a.settings);
    let mut v = m.raw("progname").unwrap_or_default().to_vec();
    let mut add = |f: &[u8]| { v.push(b' '); v.extend_from_slice(f) };
    if m.b("sudoedit", false) && m.raw("progname") != Some(b"sudoedit") { add(b"--edit") }
    let valued = |k: &str, f: &str| m.raw(k).map(|x| { let mut b = f.as_bytes().to_vec(); b.push(b' '); b.extend_from_slice(x); b });
    for (k, f) in [("runas_user", "--user"), ("runas_group", "--group"), ("prompt", "--prompt")] { if let Some(b) = valued(k, f) { add(&b) } }
    for (k, f) in [("login_shell", "--login"), ("run_shell", "--shell"), ("set_home", "--set-home"), ("preserve_environment", "--preserve-env"), ("preserve_groups", "--preserve-groups"), ("ignore_ticket", "--reset-timestamp"), ("noninteractive", "--non-interactive")] { if m.b(k, false) { add(f.as_bytes()) } }
    for (k, f) in [("login_class", "--login-class"), ("selinux_role", "--role"), ("selinux_type", "--type"), ("bsdauth_type", "--auth-type")] { if let Some(b) = valued(k, f) { add(&b) } }
    if let Some(n) = m.i("closefrom", U64) { add(format!("--close-from {}", n).as_bytes()) }
    for x in &a.argv { add(x) }
    v
}
pub struct C17(pub Pool);
impl Check for C17 {
    type Case = V16;
    fn id(&self) -> &'static str { "C17" }
    fn rule(&self) -> &'static str { "at least one flag was given, or the policy set a working directory or preserved groups" }
    fn assumptions(&self) -> Vec<&'static str> { vec!["sudo never reports both preserve_groups and runas_groups", "the program name is UTF-8"] }
    fn cases(&self, t: Tier) -> u64 { t.pick(40000, 1_000_000) }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<V16> { (prop_oneof![5 => env_args(30, 0), 1 => env_args(85, 0)], ids()).prop_map(|(args, ids)| V16 { args, ids }).boxed() }
    fn run(&mut self, c: &V16) -> Outcome {
        let mut o = Outcome::new(false);
        let a = &c.args;
        let (u, m) = (M::of(&a.user_info), M::of(&a.command_info));
        let inv = invocation(a);
        let flags = inv.windows(3).any(|w| w == b" --");
        o.nontrivial = flags || m.raw("cwd").is_some() || m.b("preserve_groups", false);
        o.class_if(m.raw("cwd").is_some(), "working directory set by the policy");
        o.class_if(m.b("preserve_groups", false), "groups preserved");
        o.class_if(std::str::from_utf8(&inv).is_err(), "invocation not UTF-8");
        if !unusable(a).is_empty() { o.nontrivial = false; return o }
        let cwd = m.raw("cwd").or_else(|| u.raw("cwd")).unwrap_or_default().to_vec();
        let gid = m.i("runas_egid", U32).or_else(|| m.i("runas_gid", U32)).unwrap_or_else(|| i128::from(c.ids.map_or_else(|| unsafe { libc::getegid() }, |i| i[1])));
        let mut groups = m.l("runas_groups", U32).or_else(|| u.l("groups", U32)).unwrap_or_default();
        groups.push(gid);
        groups.sort();
        groups.dedup();
        let pool = &mut self.0;
        let ids = c.ids;
        isolated(move || {
            become_ids(ids);
            let (r, v) = look(pool, a, move |e| {
                let mut g: Vec<i128> = e.runas_gids().iter().map(|x| i128::from(*x)).collect();
                g.sort();
                vec![("invocation".into(), show(&inv), show(&e.invocation())), ("cwd".into(), show(&cwd), show(os(e.cwd()))), ("group set".into(), dbg(&groups), dbg(&g))]
            });
            o.check(v.is_some(), || format!("open returned {}: {}", r, show(&printed(3))));
            for (n, w, g) in v.unwrap_or_default() { o.check(w == g, || format!("the {} is {}, not {}", n, g, w)) }
            o
        })
    }
}

// ---- C18 ----
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct V18 { version: u32, no_printf: bool, conv: (OS, LS), kind: Kind, major: u16, minor: u16 }
pub struct C18(pub Pool);
impl Check for C18 {
    type Case = V18;
    fn id(&self) -> &'static str { "C18" }
    fn rule(&self) -> &'static str { "the version is not 1.9 to 1.21, those any test or sudo of the time would use" }
    fn cases(&self, t: Tier) -> u64 { t.pick(32000, 1_000_000) }
    fn fixed(&self, _t: Tier) -> Vec<V18> {
        [0u32, 8, 9, 10, 0xffff, 0x1_0000, 0x1_0008, 0x1_0009, 0x1_000a, 0x1_ffff, 0x2_0000, 0x2_0008, 0x9_0001, 0xffff_0000, 0xffff_ffff, 0x8000_0000, 0x7fff_ffff, 0x0009_0001, 0x0000_ffff]
            .iter().map(|v| V18 { version: *v, no_printf: false, conv: (OS::Deny, LS::Deny), kind: Kind::A, major: (*v >> 16) as u16, minor: *v as u16 }).collect()
    }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<V18> {
        let part = || prop_oneof![4 => 0u16..40, 1 => select(vec![0xffffu16, 0xfffe, 0x8000, 0x7fff, 0x100, 0xff, 0x109]), 1 => any::<u16>()];
        let v = prop_oneof![4 => (part(), part()).prop_map(|(a, b)| u32::from(a) << 16 | u32::from(b)), 4 => (0u32..40).prop_map(|b| 1 << 16 | b), 2 => (0u32..4, 0u32..20).prop_map(|(a, b)| a << 16 | b), 1 => any::<u32>()];
        (v, prop_oneof![6 => Just(false), 1 => Just(true)], select(vec![OS::Deny, OS::Usage]), ls(), kind(), part(), part()).prop_map(|(version, no_printf, o, l, kind, major, minor)| V18 { version, no_printf, conv: (o, l), kind, major, minor }).boxed()
    }
    fn run(&mut self, c: &V18) -> Outcome {
        let mut o = Outcome::new(!(0x1_0009..=0x1_0015).contains(&c.version));
        let old = c.version < 0x1_0009;
        o.class(if old { "refused" } else { "opened" });
        let pool = &mut self.0;
        isolated(move || {
            use sudo_plugin::sys;
            let v = sys::sudo_api_mkversion(u32::from(c.major), u32::from(c.minor));
            o.check(v == u32::from(c.major) << 16 | u32::from(c.minor), || format!("{}.{} is encoded as {:#x}", c.major, c.minor, v));
            for x in [v, c.version] {
                let (a, b) = (sys::sudo_api_version_get_major(x), sys::sudo_api_version_get_minor(x));
                o.check(a == x >> 16 && b == x & 0xffff && sys::sudo_api_mkversion(a, b) == x, || format!("{:#x} is decoded as {}.{}", x, a, b));
            }
            script().conv = c.conv;
            let mut a = Args::plain();
            a.version = c.version;
            a.no_printf = c.no_printf;
            let seen = Rc::new(RefCell::new(None));
            let to = seen.clone();
            script().look = Some(Box::new(move |e| *to.borrow_mut() = Some(e.api_version.to_string())));
            let mut h = Host { pool, plugin: c.kind.plugin(), via: 0 };
            let r = h.open(&a);
            let ran = script().events.iter().any(|e| matches!(e, Event::Open(_)));
            let text = format!("{}.{}", c.version >> 16, c.version & 0xffff);
            if old {
                o.check(!ran, || format!("opened for the unsupported version {}", text));
                o.check(r == c.conv.0.code(), || format!("version {}: open returned {}", text, r));
                if !c.no_printf {
                    let told = String::from_utf8_lossy(&printed(3)).into_owned();
                    let words: Vec<&str> = told.split(|x: char| !x.is_ascii_digit() && x != '.').map(|w| w.trim_matches('.')).collect();
                    o.check(words.contains(&&text[..]) && words.contains(&"1.9"), || format!("the provided version {} and the required 1.9 aren't both named: {:?}", text, told));
                }
            } else {
                o.check(ran && r == 1, || format!("version {} is supported, yet open returned {}", text, r));
                o.check(seen.borrow().as_deref() == Some(&text[..]), || format!("version {} reported as {:?}", text, seen.borrow()));
            }
            o
        })
    }
}

// ---- C23 ----
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum W { Write(B), All(B), Fmt(String), Line(B), Flush, Pieces(String, i64, String) }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct V23 { kind: Kind, ops: Vec<(bool, W)>, fail_from: Option<usize>, no_printf: bool }
pub struct C23(pub Pool);
impl Check for C23 {
    type Case = V23;
    fn id(&self) -> &'static str { "C23" }
    fn rule(&self) -> &'static str { "some text holds a %, a NUL or bytes that aren't UTF-8, or the message function fails or is missing" }
    fn assumptions(&self) -> Vec<&'static str> { vec!["sudo's printf prints everything and returns its length, or prints nothing and returns -1"] }
    fn cases(&self, t: Tier) -> u64 { t.pick(40000, 1_000_000) }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<V23> {
        let raw = || prop_oneof![6 => data(300), 4 => cstr(100), 4 => text().prop_map(B::from), 1 => data(20000), 1 => (1usize..9000).prop_map(|n| B(b"%s".repeat(n)))];
        let w = prop_oneof![
            3 => raw().prop_map(W::Write), 4 => raw().prop_map(W::All), 2 => text().prop_map(W::Fmt), 3 => raw().prop_map(W::Line), 1 => Just(W::Flush),
            1 => (text(), any::<i64>(), text()).prop_map(|(a, b, c)| W::Pieces(a, b, c)),
        ];
        let fail = prop_oneof![6 => Just(None), 1 => (0usize..8).prop_map(Some)];
        (kind(), vec((any::<bool>(), w), 1..8), fail, prop_oneof![10 => Just(false), 1 => Just(true)]).prop_map(|(kind, ops, fail_from, no_printf)| V23 { kind, ops, fail_from, no_printf }).boxed()
    }
    fn run(&mut self, c: &V23) -> Outcome {
        let mut o = Outcome::new(false);
        let wild = |b: &[u8]| b.contains(&b'%') || b.contains(&0) || std::str::from_utf8(b).is_err();
        let body = |w: &W| -> Vec<u8> { match w { W::Write(b) | W::All(b) | W::Line(b) => b.to_vec(), W::Fmt(s) => s.clone().into_bytes(), W::Flush => vec![], W::Pieces(a, n, b) => format!("{}{}{}", a, n, b).into_bytes() } };
        o.nontrivial = c.fail_from.is_some() || c.no_printf || c.ops.iter().any(|(_, w)| wild(&body(w)));
        o.class_if(c.ops.iter().any(|(_, w)| body(w).contains(&b'%')), "text with %");
        o.class_if(c.ops.iter().any(|(_, w)| body(w).contains(&0)), "text with NUL");
        o.class_if(c.fail_from.is_some(), "message function fails");
        o.class_if(c.no_printf, "no message function");
        let pool = &mut self.0;
        isolated(move || {
            let mut a = Args::plain();
            a.no_printf = c.no_printf;
            let env: Rc<RefCell<Option<&'static IoEnv>>> = Rc::default();
            let to = env.clone();
            script().look = Some(Box::new(move |e| *to.borrow_mut() = Some(e)));
            let r = Host { pool, plugin: c.kind.plugin(), via: 0 }.open(&a);
            let Some(env) = *env.borrow() else { o.fail(format!("open returned {}", r)); return o };
            o.check(script().prints.is_empty(), || "opening printed something".into());
            let (mut out, mut err) = (env.stdout(), env.stderr());
            script().fail_from = c.fail_from.map(|k| k + script().calls);
            for (i, (to_err, w)) in c.ops.iter().enumerate() {
                script().prints.clear();
                let before = script().calls;
                let h = if *to_err { &mut err } else { &mut out };
                let level = if *to_err { 3 } else { 4 };
                let text = body(w);
                let mut want = text.clone();
                if let W::Line(_) = w { want = [c.kind.name().as_bytes(), b": ", &text, b"\n"].concat() }
                let res: std::io::Result<Option<usize>> = match w {
                    W::Write(b) => h.write(b).map(Some), W::All(b) => h.write_all(b).map(|_| None), W::Fmt(s) => write!(h, "{}", s).map(|_| None), W::Line(b) => h.write_line(b).map(|_| None),
                    W::Flush => h.flush().map(|_| None), W::Pieces(a, n, b) => write!(h, "{}{}{}", a, n, b).map(|_| None),
                };
                let wrong = script().prints.iter().any(|p| p.0 != level);
                let got: Vec<u8> = script().prints.iter().flat_map(|p| p.1.clone()).collect();
                let failed = script().fail_from.map_or(false, |k| script().calls > k && script().calls > before);
                let what = format!("op {} ({:?})", i, w);
                o.check(!wrong, || format!("{}: printed at the wrong level", what));
                if c.no_printf {
                    o.check(want.is_empty() || res.is_err(), || format!("{}: succeeded without a message function", what));
                    o.check(got.is_empty(), || format!("{}: printed without a message function", what));
                } else if text.contains(&0) {
                    o.check(res.is_err(), || format!("{}: succeeded despite a NUL", what));
                    // parts without one may have been sent before
                    let whole = !matches!(w, W::Write(_) | W::All(_));
                    let ok = if whole { want.starts_with(&got) && !got.contains(&0) } else { got.is_empty() };
                    o.check(ok, || format!("{}: printed \"{}\" although it fails", what, show(&got)));
                } else if failed {
                    o.check(res.is_err(), || format!("{}: succeeded although the message function failed", what));
                    o.check(want.starts_with(&got), || format!("{}: printed \"{}\"", what, show(&got)));
                } else {
                    o.check(got == want, || format!("{}: printed \"{}\", not \"{}\"", what, show(&got), show(&want)));
                    match &res {
                        Ok(None) => (),
                        Ok(Some(n)) => o.check(*n == text.len(), || format!("{}: reported {} bytes", what, n)),
                        Err(e) => o.fail(format!("{}: failed: {}", what, e)),
                    }
                }
            }
            let _ = trimmed(vec![]);
            o
        })
    }
}
