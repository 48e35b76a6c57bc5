//! C27: the example approval plugin, through its descriptor.

use crate::iso::isolated;
use crate::probe::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcore::gen::*;
use vcore::{Check, Outcome, Tier, B};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Do {
    Open { version: u32, printf: bool, fails: bool, lists: Vec<Vec<B>>, optind: i32, no_options: bool },
    Check { command: Vec<B>, argv: Vec<B>, env: Vec<B>, #[serde(default)] stray: bool },
    Version(i32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct V { release: bool, header: u8, ops: Vec<Do> }

pub struct C27;
impl C27 { pub fn new() -> Self { C27 } }

impl Check for C27 {
    type Case = V;
    fn id(&self) -> &'static str { "C27" }
    fn rule(&self) -> &'static str { "at least one approval check" }
    fn assumptions(&self) -> Vec<&'static str> { vec!["sudo passes a place for the error string from API 1.17 on"] }
    fn cases(&self, t: Tier) -> u64 { t.pick(24000, 600_000) }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<V> {
        let list = || vec(prop_oneof![3 => entry(), 1 => Just(B::from("command=/bin/true")), 1 => Just(B::from("HOME=%s%n"))], 0..6);
        let version = prop_oneof![3 => (10u32..25).prop_map(|m| 1 << 16 | m), 2 => Just(1 << 16 | 17), 1 => Just(1 << 16 | 16), 1 => (0u32..4, 0u32..60).prop_map(|(a, b)| a << 16 | b), 1 => any::<u32>()];
        let open = (version, prop_oneof![3 => Just(true), 1 => Just(false)], prop_oneof![5 => Just(false), 1 => Just(true)], vec(list(), 5), any::<i32>(), any::<bool>())
            .prop_map(|(version, printf, fails, lists, optind, no_options)| Do::Open { version, printf, fails, lists, optind, no_options });
        let check = (list(), list(), list(), prop::bool::weighted(0.3)).prop_map(|(command, argv, env, stray)| Do::Check { command, argv, env, stray });
        (any::<bool>(), 0u8..2, vec(prop_oneof![3 => open, 5 => check, 1 => any::<i32>().prop_map(Do::Version)], 1..8)).prop_map(|(release, header, ops)| V { release, header, ops }).boxed()
    }
    fn run(&mut self, c: &V) -> Outcome {
        let mut o = Outcome::new(c.ops.iter().any(|d| matches!(d, Do::Check { .. })));
        isolated(move || { run(c, &mut o); o })
    }
}
fn entry() -> BoxedStrategy<B> { ("[a-z_]{0,8}", cstr(10)).prop_map(|(k, v)| { let mut e = k.into_bytes(); e.push(b'='); e.extend_from_slice(&v); B(e) }).boxed() }
fn vector(v: &[B]) -> Vector { Vector::new(&v.iter().map(|b| b.to_vec()).collect::<Vec<_>>()) }

fn run(c: &V, o: &mut Outcome) {
    let host = if c.header == 0 { PIN } else { REP };
    let dir = std::path::PathBuf::from(std::env::var_os("VERIF_PLUGIN_DIR").expect("VERIF_PLUGIN_DIR"));
    let (p, _) = match load(&dir.join(if c.release { "release" } else { "debug" }).join("libdeny_everything.so"), "deny_everything") { Ok(x) => x, Err(e) => { o.fail(e); return } };
    let call = |what: &str, w: &[u64]| host.invoke(&format!("approval_plugin.{}", what), p, w).0 as i32;
    // the last open: its version and message function
    let mut last: Option<(u32, bool)> = None;
    for (i, d) in c.ops.iter().enumerate() {
        rec().prints.clear();
        match d {
            Do::Open { version, printf, fails, lists, optind, no_options } => {
                rec().fail = *fails;
                let v: Vec<Vector> = lists.iter().map(|l| vector(l)).collect();
                let mut err = 0u64;
                let f = if *printf { vp_printf as usize as u64 } else { 0 };
                let r = call("open", &[u64::from(*version), host.given("sudo_conv_t") as u64, f, v[0].at(), v[1].at(), *optind as i64 as u64, v[2].at(), v[3].at(), if *no_options { 0 } else { v[4].at() }, std::ptr::addr_of_mut!(err) as u64]);
                // an open that fails denies as well
                if r == 1 { last = Some((*version, *printf)) } else { return }
            }
            Do::Check { command, argv, env, stray } => {
                let (a, b, e) = (vector(command), vector(argv), vector(env));
                let mut err: *const libc::c_char = std::ptr::null();
                // a sudo of before 1.17 has no such argument, so its place holds anything
                let stray = *stray && matches!(last, Some((v, _)) if v < 1 << 16 | 17);
                o.class_if(stray, "no place for the error string");
                let r = call("check", &[a.at(), b.at(), e.at(), if stray { 8 } else { std::ptr::addr_of_mut!(err) as u64 }]);
                o.class(match last { None => "check before open", Some((_, false)) => "check without a message function", Some((v, true)) if v >= 1 << 16 | 17 => "check, API 1.17 or later", _ => "check, older API" });
                o.check(r == 0, || format!("call {}: check answered {}, not 0", i, r));
                if let Some((v, true)) = last {
                    let told = rec().prints.iter().any(|(l, t)| (*l == 3 || *l == 4) && !t.is_empty());
                    o.check(told, || format!("call {}: the user was told nothing of the denial", i));
                    if v >= 1 << 16 | 17 {
                        let s = if err.is_null() { vec![] } else { unsafe { std::ffi::CStr::from_ptr(err) }.to_bytes().to_vec() };
                        o.check(!s.is_empty(), || format!("call {}: API {}.{}, but no error string", i, v >> 16, v & 0xffff));
                    }
                }
            }
            Do::Version(v) => { call("show_version", &[*v as i64 as u64]); }
        }
    }
}
