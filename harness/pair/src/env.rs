//! A generated sudo invocation, how sudo would describe it to a plugin, and
//! the reference model of what sudo_pair must make of it (written from
//! README.md and sudo_plugin(5), not from the implementation).

use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeSet, HashSet};
use vcore::gen::{cstr, dict_str, len, long, u32s, utf8, with_ints};
use vcore::B;

pub const FLAGS: [(&str, &str); 9] = [
    ("sudoedit", "--edit"), ("login_shell", "--login"), ("run_shell", "--shell"), ("set_home", "--set-home"),
    ("preserve_environment", "--preserve-env"), ("preserve_groups", "--preserve-groups"),
    ("ignore_ticket", "--reset-timestamp"), ("noninteractive", "--non-interactive"), ("implied_shell", ""),
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Env {
    pub api: (u16, u16),
    pub uid: u32, pub euid: u32, pub gid: u32, pub egid: u32,
    pub groups: Vec<u32>,
    pub user: B, pub host: B, pub cwd: B,
    pub cols: Option<u64>, pub lines: Option<u64>,
    pub pid: u32, pub ppid: u32, pub pgid: u32,
    pub sid: Option<u32>, pub tcpgid: Option<i32>,
    pub progname: B,
    pub runas_user: Option<B>, pub runas_group: Option<B>, pub prompt: Option<B>, pub login_class: Option<B>,
    pub selinux_role: Option<B>, pub selinux_type: Option<B>, pub auth_type: Option<B>, pub close_from: Option<u64>,
    pub flags: u16,
    pub command: B, pub argv: Vec<B>,
    pub runas_uid: u32, pub runas_euid: Option<u32>, pub runas_gid: u32, pub runas_egid: Option<u32>,
    pub preserve_groups: bool, pub runas_groups: Vec<u32>,
    /// stdin, stdout, stderr, ttyin, ttyout
    pub iolog: [Option<bool>; 5],
    pub cmd_cwd: Option<B>,
    pub binary_path: Option<B>,
    pub gids_enforced: Option<B>, pub gids_exempted: Option<B>,
    pub user_env: Vec<B>,
    pub extra: Vec<(u8, B)>,
    /// Documented entries the outcome doesn't depend on.
    #[serde(default)]
    pub more: Vec<(u8, B)>,
    pub order: u64,
}

pub struct Vectors { pub settings: Vec<Vec<u8>>, pub user: Vec<Vec<u8>>, pub command: Vec<Vec<u8>>, pub env: Vec<Vec<u8>>, pub options: Vec<Vec<u8>> }

/// Options whose value is a path prepared by the engine.
#[derive(Clone, Debug, Default)]
pub struct Paths { pub socket_dir: Option<Vec<u8>>, pub user_prompt: Option<Vec<u8>>, pub pair_prompt: Option<Vec<u8>>, pub tty: Option<Vec<u8>> }

pub fn mix(x: u64, i: u64) -> u64 {
    let mut z = x.wrapping_add(i.wrapping_mul(0x9e37_79b9_7f4a_7c15));
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

/// Order 0 keeps the natural order; anything else permutes.
fn shuffle(v: &mut [Vec<u8>], order: u64) {
    if order == 0 { return }
    for i in (1..v.len()).rev() {
        let j = (mix(order, i as u64) % (i as u64 + 1)) as usize;
        v.swap(i, j);
    }
}

fn kv(k: &str, v: impl AsRef<[u8]>) -> Vec<u8> {
    let mut o = k.as_bytes().to_vec();
    o.push(b'=');
    o.extend_from_slice(v.as_ref());
    o
}

pub fn csv(g: &[u32]) -> String { g.iter().map(u32::to_string).collect::<Vec<_>>().join(",") }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Target { User(u32), Group(u32), Both, Neither }

impl Env {
    pub fn flag(&self, name: &str) -> bool {
        FLAGS.iter().position(|f| f.0 == name).map_or(false, |i| self.flags >> i & 1 == 1)
    }
    pub fn vectors(&self, p: &Paths) -> Vectors {
        let mut s = vec![kv("plugin_dir", "/usr/libexec/sudo/"), kv("plugin_path", "/usr/libexec/sudo/sudo_pair.so"), kv("progname", &self.progname.0)];
        for (i, f) in FLAGS.iter().enumerate() {
            if self.flags >> i & 1 == 1 { s.push(kv(f.0, "true")) }
            else if mix(self.order, 77 + i as u64) & 7 == 1 { s.push(kv(f.0, "false")) }
        }
        for (k, v) in [("runas_user", &self.runas_user), ("runas_group", &self.runas_group), ("prompt", &self.prompt),
            ("login_class", &self.login_class), ("selinux_role", &self.selinux_role), ("selinux_type", &self.selinux_type),
            ("bsdauth_type", &self.auth_type)] {
            if let Some(v) = v { s.push(kv(k, &v.0)) }
        }
        if let Some(n) = self.close_from { s.push(kv("closefrom", n.to_string())) }

        let mut u = vec![
            kv("user", &self.user.0), kv("uid", self.uid.to_string()), kv("euid", self.euid.to_string()),
            kv("gid", self.gid.to_string()), kv("egid", self.egid.to_string()), kv("groups", csv(&self.groups)),
            kv("cwd", &self.cwd.0), kv("host", &self.host.0), kv("pid", self.pid.to_string()),
            kv("ppid", self.ppid.to_string()), kv("pgid", self.pgid.to_string()), kv("umask", "022"),
        ];
        if let Some(n) = self.cols { u.push(kv("cols", n.to_string())) }
        if let Some(n) = self.lines { u.push(kv("lines", n.to_string())) }
        if let Some(n) = self.sid { u.push(kv("sid", n.to_string())) }
        if let Some(n) = self.tcpgid { u.push(kv("tcpgid", n.to_string())) }
        if let Some(t) = &p.tty { u.push(kv("tty", t)) }

        let mut c = vec![kv("command", &self.command.0), kv("runas_uid", self.runas_uid.to_string()), kv("runas_gid", self.runas_gid.to_string()), kv("umask", "022")];
        if let Some(n) = self.runas_euid { c.push(kv("runas_euid", n.to_string())) }
        if let Some(n) = self.runas_egid { c.push(kv("runas_egid", n.to_string())) }
        if self.preserve_groups { c.push(kv("preserve_groups", "true")) } else { c.push(kv("runas_groups", csv(&self.runas_groups))) }
        for (k, v) in ["iolog_stdin", "iolog_stdout", "iolog_stderr", "iolog_ttyin", "iolog_ttyout"].iter().zip(self.iolog) {
            if let Some(v) = v { c.push(kv(k, if v { "true" } else { "false" })) }
        }
        if let Some(d) = &self.cmd_cwd { c.push(kv("cwd", &d.0)) }

        let mut o = vec![];
        if let Some(v) = &self.binary_path { o.push(kv("binary_path", &v.0)) }
        if let Some(v) = &self.gids_enforced { o.push(kv("gids_enforced", &v.0)) }
        if let Some(v) = &self.gids_exempted { o.push(kv("gids_exempted", &v.0)) }
        if let Some(v) = &p.socket_dir { o.push(kv("socket_dir", v)) }
        if let Some(v) = &p.user_prompt { o.push(kv("user_prompt_path", v)) }
        if let Some(v) = &p.pair_prompt { o.push(kv("pair_prompt_path", v)) }

        let mut e: Vec<Vec<u8>> = self.user_env.iter().map(|b| b.0.clone()).collect();
        for (w, x) in &self.extra {
            if known_key(&x.0) { continue }
            match w % 5 { 0 => s.push(x.0.clone()), 1 => u.push(x.0.clone()), 2 => c.push(x.0.clone()), 3 => o.push(x.0.clone()), _ => e.push(x.0.clone()) }
        }
        for (w, x) in &self.more {
            match w { 0 => s.push(x.0.clone()), 1 => u.push(x.0.clone()), _ => c.push(x.0.clone()) }
        }
        shuffle(&mut s, self.order);
        shuffle(&mut u, self.order.wrapping_mul(3));
        shuffle(&mut c, self.order.wrapping_mul(5));
        shuffle(&mut o, self.order.wrapping_mul(7));
        Vectors { settings: s, user: u, command: c, env: e, options: o }
    }

    // ---- reference model ----

    pub fn t_euid(&self) -> u32 { self.runas_euid.unwrap_or(self.runas_uid) }
    pub fn t_egid(&self) -> u32 { self.runas_egid.unwrap_or(self.runas_gid) }
    pub fn t_gids(&self) -> HashSet<u32> {
        let mut s: HashSet<u32> = if self.preserve_groups { self.groups.iter().copied().collect() } else { self.runas_groups.iter().copied().collect() };
        s.insert(self.t_egid());
        s
    }
    pub fn enforced(&self) -> HashSet<u32> {
        self.gids_enforced.as_ref().and_then(|b| parse_gids(b)).unwrap_or_else(|| [0].into_iter().collect())
    }
    pub fn exempted(&self) -> HashSet<u32> { self.gids_exempted.as_ref().and_then(|b| parse_gids(b)).unwrap_or_default() }
    pub fn binary(&self) -> Vec<u8> { self.binary_path.as_ref().map_or_else(|| b"/usr/bin/sudo_approve".to_vec(), |b| b.0.clone()) }

    /// Is the command the approval program? Repeated slashes don't make it another.
    fn approval(&self) -> bool {
        use std::os::unix::ffi::OsStrExt;
        let p = |b: &[u8]| std::path::PathBuf::from(std::ffi::OsStr::from_bytes(b));
        p(&self.command.0) == p(&self.binary())
    }

    /// Names of the exemptions that apply.
    pub fn exemptions(&self) -> Vec<&'static str> {
        let mut v = vec![];
        if self.uid == self.euid { v.push("from-root") }
        if self.uid == self.t_euid() && self.gid == self.t_egid() { v.push("to-self") }
        if self.approval() { v.push("approval-command") }
        if self.iolog[1] != Some(true) && self.iolog[2] != Some(true) && self.iolog[4] != Some(true) { v.push("not-logged") }
        let ex = self.exempted();
        if self.groups.iter().any(|g| ex.contains(g)) { v.push("exempted-gid") }
        let en = self.enforced();
        if !self.t_gids().iter().any(|g| en.contains(g)) { v.push("not-enforced-gid") }
        v
    }
    pub fn exempt(&self) -> bool { !self.exemptions().is_empty() }

    pub fn target(&self) -> Target {
        match (self.uid != self.t_euid(), self.runas_group.is_some()) {
            (true, true)   => Target::Both,
            (true, false)  => Target::User(self.t_euid()),
            (false, true)  => Target::Group(self.t_egid()),
            (false, false) => Target::Neither,
        }
    }

    pub fn sock_name(&self) -> String { format!("{}.{}.sock", self.uid, self.pid) }

    pub fn invocation(&self) -> Vec<u8> {
        let mut parts: Vec<Vec<u8>> = vec![self.progname.0.clone()];
        if self.flag("sudoedit") && self.progname.0 != b"sudoedit" { parts.push(b"--edit".to_vec()) }
        let opt = |parts: &mut Vec<Vec<u8>>, f: &str, v: &Option<B>| if let Some(v) = v {
            let mut x = f.as_bytes().to_vec(); x.push(b' '); x.extend_from_slice(v); parts.push(x)
        };
        opt(&mut parts, "--user", &self.runas_user);
        opt(&mut parts, "--group", &self.runas_group);
        opt(&mut parts, "--prompt", &self.prompt);
        for i in 1..8 { if self.flags >> i & 1 == 1 { parts.push(FLAGS[i].1.as_bytes().to_vec()) } }
        opt(&mut parts, "--login-class", &self.login_class);
        opt(&mut parts, "--role", &self.selinux_role);
        opt(&mut parts, "--type", &self.selinux_type);
        opt(&mut parts, "--auth-type", &self.auth_type);
        if let Some(n) = self.close_from { parts.push(format!("--close-from {}", n).into_bytes()) }
        parts.extend(self.argv.iter().map(|a| a.0.clone()));
        parts.join(&b' ')
    }

    pub fn directive(&self, d: u8) -> Option<Vec<u8>> {
        Some(match d {
            b'b' => { let b = self.binary(); let t = b.rsplit(|c| *c == b'/').next().unwrap_or_default().to_vec(); if t.is_empty() { b } else { t } }
            b'B' => self.binary(),
            b'C' => self.invocation(),
            b'd' => self.cmd_cwd.as_ref().unwrap_or(&self.cwd).0.clone(),
            b'h' => self.host.0.clone(),
            b'H' => self.lines.unwrap_or(24).to_string().into_bytes(),
            b'g' => self.gid.to_string().into_bytes(),
            b'p' => self.pid.to_string().into_bytes(),
            b'u' => self.uid.to_string().into_bytes(),
            b'U' => self.user.0.clone(),
            b'W' => self.cols.unwrap_or(80).to_string().into_bytes(),
            _ => return None,
        })
    }

    /// Reference expander: scans left to right; '%' and its follower are one token.
    pub fn expand(&self, t: &[u8]) -> Vec<u8> {
        let mut o = vec![];
        let mut i = 0;
        while i < t.len() {
            if t[i] != b'%' { o.push(t[i]); i += 1; continue }
            match t.get(i + 1) {
                None    => (),
                Some(d) => match self.directive(*d) { Some(v) => o.extend(v), None => o.push(*d) },
            }
            i += 2;
        }
        o
    }

    /// Keeps to what sudo can send (see DESIGN.md, domain).
    pub fn wellformed(mut self) -> Env {
        if self.runas_uid == u32::MAX { self.runas_uid -= 1 }
        if self.runas_gid == u32::MAX { self.runas_gid -= 1 }
        if self.runas_euid == Some(u32::MAX) { self.runas_euid = Some(u32::MAX - 1) }
        if self.runas_egid == Some(u32::MAX) { self.runas_egid = Some(u32::MAX - 1) }
        if self.groups.is_empty() { self.groups.push(self.gid) }
        if self.runas_groups.is_empty() { self.runas_groups.push(self.t_egid()) }
        if self.uid == self.t_euid() && self.gid == self.t_egid() {
            if !self.groups.contains(&self.gid) { self.groups.insert(0, self.gid) }
            if !self.preserve_groups { self.runas_groups = self.groups.clone() }
        }
        if self.command.0.is_empty() { self.command = "/bin/x".into() }
        if self.argv.is_empty() { self.argv = vec!["x".into()] }
        self.pid = self.pid.clamp(1, i32::MAX as u32);
        self
    }

    /// Turns the environment into one that needs a pair.
    pub fn paired(mut self, kind: PairKind) -> Env {
        if self.euid == self.uid { self.euid = if self.uid == 0 { 1 } else { 0 } }
        match kind {
            PairKind::User => {
                if self.t_euid() == self.uid { self.runas_euid = Some(if self.uid == 7 { 8 } else { 7 }) }
                self.runas_group = None;
            }
            PairKind::Group => {
                self.runas_euid = Some(self.uid.min(u32::MAX - 1));
                if self.uid == u32::MAX { self.uid -= 1; self.runas_euid = Some(self.uid) }
                if self.euid == self.uid { self.euid = if self.uid == 0 { 1 } else { 0 } }
                if self.t_egid() == self.gid { self.runas_egid = Some(if self.gid == 7 { 8 } else { 7 }) }
                if self.runas_group.is_none() { self.runas_group = Some("ops".into()) }
            }
        }
        if self.approval() { self.command.0.push(b'x') }
        if ![1, 2, 4].iter().any(|i| self.iolog[*i] == Some(true)) { self.iolog[4] = Some(true) }
        self = self.wellformed();
        let ex = self.exempted();
        if self.groups.iter().any(|g| ex.contains(g)) { self.gids_exempted = None }
        let en = self.enforced();
        if !self.t_gids().iter().any(|g| en.contains(g)) {
            self.gids_enforced = Some(B::from(self.t_egid().to_string()));
        }
        debug_assert!(!self.exempt());
        self
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum PairKind { User, Group }

/// A comma-separated list of decimal gids; anything else is not a list.
pub fn parse_gids(b: &[u8]) -> Option<HashSet<u32>> {
    let s = std::str::from_utf8(b).ok()?;
    s.split(',').map(|t| if !t.is_empty() && t.bytes().all(|c| c.is_ascii_digit()) { t.parse::<u32>().ok() } else { None }).collect()
}

pub fn known_key(entry: &[u8]) -> bool {
    let k = entry.split(|b| *b == b'=').next().unwrap_or_default();
    const K: &[&str] = &["plugin_dir", "plugin_path", "progname", "runas_user", "runas_group", "prompt", "login_class", "selinux_role",
        "selinux_type", "bsdauth_type", "bsd_auth_type", "closefrom", "user", "uid", "euid", "gid", "egid", "groups", "cwd", "host", "pid", "ppid", "pgid",
        "umask", "cols", "lines", "sid", "tcpgid", "tty", "command", "runas_uid", "runas_gid", "runas_euid", "runas_egid", "preserve_groups",
        "runas_groups", "iolog_stdin", "iolog_stdout", "iolog_stderr", "iolog_ttyin", "iolog_ttyout", "binary_path", "gids_enforced", "gids_exempted",
        "socket_dir", "user_prompt_path", "pair_prompt_path", "sudoedit", "login_shell", "run_shell", "set_home", "preserve_environment",
        "ignore_ticket", "noninteractive", "implied_shell"];
    K.iter().any(|x| x.as_bytes() == k)
}

// ---- generators ----

pub fn id() -> BoxedStrategy<u32> {
    prop_oneof![
        6 => select(vec![0u32, 1, 2, 7, 10, 20, 27, 33, 100, 1000, 1001, 1002, 5000]),
        1 => select(vec![65533u32, 65534, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_fffd, 0xffff_fffe]),
        1 => u32s().prop_map(|v| v as u32),
    ].boxed()
}
pub fn gids(max: usize) -> BoxedStrategy<Vec<u32>> {
    prop_oneof![
        8 => vec(id(), 1..6),
        2 => vec(id(), 1..20),
        1 => len(max).prop_flat_map(|n| vec(0u32..3000, n.max(1))),
    ].boxed()
}
fn gid_list() -> BoxedStrategy<B> {
    prop_oneof![
        12 => gids(40).prop_map(|g| B::from(csv(&g))),
        1 => select(vec!["", ",", "0,", ",0", "0,,1", "a", "0,x", "-1", "0 ", " 0", "0, 1", "4294967296", "99999999999999999999", "0x0", "0;1", "root", "1.0", "١"]).prop_map(B::from),
        1 => cstr(12).prop_filter("no plus sign", |b| !b.contains(&b'+')),
    ].boxed()
}
pub fn pid() -> BoxedStrategy<u32> {
    with_ints(prop_oneof![4 => 1u64..40000, 1 => 1u64..10, 1 => 1u64..4194305, 1 => Just(0x7fff_ffffu64)], 0x7fff_ffff).prop_map(|v| v.max(1) as u32).boxed()
}
fn dim() -> BoxedStrategy<Option<u64>> { option::weighted(0.85, prop_oneof![5 => 1u64..300, 1 => u32s(), 1 => any::<u64>()]).boxed() }
pub fn abspath() -> BoxedStrategy<B> {
    prop_oneof![
        6 => "(/[a-z0-9._-]{1,8}){1,4}".prop_map(B::from),
        1 => Just(B::from("/")),
        1 => vec(cstr(20), 1..4).prop_map(|v| { let mut o = vec![]; for p in v { o.push(b'/'); o.extend(p.0) } B(o) }),
    ].boxed()
}
pub fn command() -> BoxedStrategy<B> {
    prop_oneof![
        4 => select(vec!["/bin/ls", "/bin/sh", "/usr/bin/id", "/usr/bin/vim", "sudoedit"]).prop_map(B::from),
        2 => select(vec!["/usr/bin/sudo_approve", "/usr/local/bin/sudo_approve", "/usr/bin/sudo_approve2", "/usr/bin/sudo_approv", "/usr/bin/sudo_approve/x",
            "/tmp/usr/bin/sudo_approve", "/usr/bin/SUDO_APPROVE", "sudo_approve", "usr/bin/sudo_approve", "/opt/approve", "/opt/approve.sh"]).prop_map(B::from),
        3 => abspath(),
        1 => cstr(60).prop_map(|b| if b.is_empty() { "/x".into() } else { b }),
    ].boxed()
}
/// A normalised absolute path (see DESIGN.md, domain).
fn binary() -> BoxedStrategy<Option<B>> {
    option::weighted(0.6, prop_oneof![
        3 => select(vec!["/usr/bin/sudo_approve", "/usr/local/bin/sudo_approve", "/opt/approve", "/bin/ls", "/bin/sh", "/usr/bin/perl"]).prop_map(B::from),
        1 => "(/[a-zA-Z0-9_-]{1,9}){1,5}".prop_map(B::from),
        1 => "(/[.]?[a-z0-9_-]{1,5}([.][a-z0-9]{1,4}){0,2}[.]?x){1,3}".prop_map(B::from),
        1 => "/[a-z]{1,4}/[ %a-zé$'-]{1,12}x".prop_map(B::from),
        1 => select(vec![&b"/opt/appr\xf6ve"[..], b"/usr/bin/sudo_approve\xff", b"/\xff/sudo_approve", b"/opt/\xc3/\xa9.\xff"]).prop_map(|b| B(b.to_vec())),
    ]).boxed()
}
pub fn argv() -> BoxedStrategy<Vec<B>> {
    prop_oneof![
        6 => vec(cstr(40), 1..5),
        2 => vec(cstr(20), 1..30),
        1 => vec(cstr(300), 1..6),
        1 => (vec(cstr(20), 0..3), long(70_000), vec(cstr(20), 0..3)).prop_map(|(mut a, b, c)| { a.push(b); a.extend(c); a }),
        1 => len(2000).prop_flat_map(|n| vec(cstr(6), n.max(1))),
        1 => (command(), vec(cstr(12), 0..4)).prop_map(|(c, mut v)| { v.insert(0, c); v }),
    ].boxed()
}
fn opt_flag() -> BoxedStrategy<Option<B>> { option::weighted(0.15, prop_oneof![8 => cstr(20), 1 => long(5000), 2 => select(vec!["root", "alice", "#0", "#1000", "0", "wheel"]).prop_map(B::from)]).boxed() }
fn hint() -> BoxedStrategy<Option<bool>> { prop_oneof![4 => Just(Some(true)), 2 => Just(Some(false)), 2 => Just(None)].boxed() }
fn extra() -> BoxedStrategy<Vec<(u8, B)>> {
    let key = prop_oneof![2 => "[a-z_]{1,12}".prop_map(String::into_bytes), 1 => dict_str().prop_map(|mut v| { v.retain(|c| *c != b'='); v })];
    let val = prop_oneof![2 => cstr(12).prop_map(|b| b.0), 1 => select(vec![b"true".to_vec(), b"1".to_vec(), b"0".to_vec(), b"false".to_vec()])];
    vec((any::<u8>(), key, option::of(val)).prop_map(|(w, mut k, v)| { if let Some(v) = v { k.push(b'='); k.extend(v) } (w, B(k)) }), 0..4).boxed()
}

/// Documented entries of sudo_plugin(5) which have no say in pairing.
const MORE: &[(u8, &str, &str)] = &[
    (0, "cmnd_chroot", "p"), (0, "cmnd_cwd", "p"), (0, "debug_flags", "s"), (0, "debug_level", "n"), (0, "intercept_ptrace", "b"), (0, "intercept_setid", "b"), (0, "max_groups", "n"),
    (0, "network_addrs", "a"), (0, "remote_host", "s"), (0, "timeout", "n"), (0, "update_ticket", "b"), (0, "askpass", "p"),
    (1, "ttydev", "n"), (1, "tty_rows", "n"),
    (2, "apparmor_profile", "s"), (2, "chroot", "p"), (2, "closefrom", "n"), (2, "cwd_optional", "b"), (2, "exec_background", "b"), (2, "execfd", "n"), (2, "intercept", "b"), (2, "intercept_verify", "b"),
    (2, "iolog_compress", "b"), (2, "iolog_flush", "b"), (2, "iolog_group", "s"), (2, "iolog_mode", "n"), (2, "iolog_path", "p"), (2, "iolog_user", "s"), (2, "log_subcmds", "b"), (2, "login_class", "s"),
    (2, "nice", "n"), (2, "noexec", "b"), (2, "preserve_fds", "n"), (2, "rlimit_core", "s"), (2, "runas_user", "s"), (2, "runas_group", "s"), (2, "selinux_role", "s"), (2, "selinux_type", "s"), (2, "set_utmp", "b"),
    (2, "source", "p"), (2, "sudoedit", "b"), (2, "sudoedit_checkdir", "b"), (2, "sudoedit_follow", "b"), (2, "sudoedit_nfiles", "n"), (2, "timeout", "n"), (2, "umask_override", "b"), (2, "use_pty", "b"), (2, "utmp_user", "s"),
];
fn more() -> BoxedStrategy<Vec<(u8, B)>> {
    let one = |(w, k, t): (u8, &'static str, &'static str)| {
        let v = match t {
            "b" => prop_oneof![5 => Just("true".to_string()), 2 => Just("false".to_string()), 1 => select(vec!["", "1", "yes"]).prop_map(String::from)].boxed(),
            "n" => u32s().prop_map(|v| v.to_string()).boxed(),
            "p" => select(vec!["/", "/root", "/tmp", "/var/log/sudo-io/00/00/01", "/usr/bin/sudo_approve"]).prop_map(String::from).boxed(),
            "a" => select(vec!["127.0.0.1/255.0.0.0", "10.0.0.1/255.255.255.0 ::1/ffff::", ""]).prop_map(String::from).boxed(),
            _ => select(vec!["root", "alice", "wheel", "0", "localhost", "sudo_approve", ""]).prop_map(String::from).boxed(),
        };
        (Just(w), Just(k), v)
    };
    prop_oneof![
        1 => Just(vec![]),
        3 => proptest::sample::subsequence(MORE.to_vec(), 0..14).prop_flat_map(move |ks| ks.into_iter().map(one).collect::<Vec<_>>()).prop_map(|v| v.into_iter().map(|(w, k, v)| (w, B::from(format!("{}={}", k, v)))).collect()),
    ].boxed()
}

/// Something that is nearly that path.
fn near(mut p: Vec<u8>, k: u64) -> Vec<u8> {
    let i = (k >> 8) as usize % p.len().max(1);
    match k % 12 {
        0 => p.push(b'\n'), 1 => p.push(b' '), 2 => p.insert(0, b' '), 3 => p.insert(0, b'.'), 4 => p.push(0xff),
        5 => p[i] = p[i].to_ascii_uppercase(), 6 => { let _ = p.pop(); } 7 => p.extend_from_slice(b"/x"), 8 => p[i] = 0xff,
        9 => { let _ = p.remove(i); } 10 => p.insert(i, p[i]), _ => p[i] = b'_',
    }
    p
}

/// Another path to the same file, where there is one.
fn alias(p: Vec<u8>, k: u64) -> Vec<u8> {
    const SAME: &[&[&str]] = &[&["/bin/sh", "/usr/bin/sh", "/bin/dash", "/usr/bin/dash"], &["/bin/ls", "/usr/bin/ls"], &["/usr/bin/perl", "/usr/bin/perl5.38.2", "/bin/perl"]];
    SAME.iter().find(|f| f.iter().any(|n| n.as_bytes() == p)).map_or(p, |f| f[k as usize % f.len()].into())
}

/// Any invocation sudo could make.
pub fn any_env() -> BoxedStrategy<Env> {
    let who = (id(), prop_oneof![9 => Just(0u32), 1 => id()], id(), id(), gids(400), any::<u8>());
    let name = |names: Vec<&'static str>| prop_oneof![8 => utf8(20), 1 => long(300).prop_map(|b| B::from(String::from_utf8_lossy(&b).into_owned())), 2 => select(names).prop_map(B::from)];
    let term = (name(vec!["root", "alice", "nobody", "admin", "0"]), name(vec!["localhost", "host", "db1.example.com"]), prop_oneof![10 => abspath(), 2 => cstr(200), 1 => long(5000)], dim(), dim(), pid(), pid(), pid(), option::of(pid()), option::of(-1i32..9999));
    let set = ((prop_oneof![8 => Just(B::from("sudo")), 1 => Just(B::from("sudoedit")), 1 => select(vec!["/usr/bin/sudoedit", "my-sudoedit", "sudoedit2"]).prop_map(B::from), 1 => utf8(12)], opt_flag(), option::weighted(0.3, cstr(12)), opt_flag(), opt_flag()),
        opt_flag(), opt_flag(), opt_flag(), option::weighted(0.1, u32s()), prop_oneof![3 => Just(0u16), 2 => any::<u16>()]);
    let cmd = (command(), argv(), id(), option::weighted(0.6, id()), id(), option::weighted(0.6, id()), prop::bool::weighted(0.2), gids(400),
        [hint(), hint(), hint(), hint(), hint()], option::weighted(0.4, prop_oneof![10 => abspath(), 2 => cstr(100), 1 => long(5000)]));
    let opt = (binary(), option::weighted(0.7, gid_list()), option::weighted(0.4, gid_list()), vec(cstr(30), 0..4), (extra(), more()), prop_oneof![1 => Just(0u64), 2 => any::<u64>()],
        prop_oneof![3 => Just((1u16, 15u16)), 2 => (Just(1u16), 9u16..40), 1 => (1u16..4, any::<u16>())]);
    (who, term, set, cmd, opt).prop_map(|(who, term, set, cmd, opt)| {
        let (uid, euid, gid, egid, groups, same) = who;
        let (user, host, cwd, cols, lines, pid, ppid, pgid, sid, tcpgid) = term;
        let ((progname, runas_user, runas_group, prompt, login_class), selinux_role, selinux_type, auth_type, close_from, flags) = set;
        let (command, argv, runas_uid, runas_euid, runas_gid, runas_egid, preserve_groups, runas_groups, iolog, cmd_cwd) = cmd;
        let (binary_path, gids_enforced, gids_exempted, user_env, (extra, more), order, api) = opt;
        let api = if api >= (1, 9) { api } else { (1, 9) };
        let mut e = Env {
            api, uid, euid, gid, egid, groups, user, host, cwd, cols, lines, pid, ppid, pgid, sid, tcpgid, progname, runas_user, runas_group, prompt,
            login_class, selinux_role, selinux_type, auth_type, close_from, flags: flags & 0x1ff, command, argv, runas_uid, runas_euid, runas_gid, runas_egid,
            preserve_groups, runas_groups, iolog, cmd_cwd, binary_path, gids_enforced, gids_exempted, user_env, extra, more, order,
        };
        // correlated identities, which independent draws rarely produce
        if same & 3 == 1 { e.runas_uid = e.uid }
        if same & 3 == 2 { e.runas_euid = Some(e.uid) }
        if same & 12 == 4 { e.runas_gid = e.gid }
        if same & 12 == 8 { e.runas_egid = Some(e.gid) }
        if same & 48 == 16 { e.euid = e.uid }
        if same & 48 == 32 && !e.groups.contains(&e.gid) { e.groups.insert(0, e.gid) }
        if same & 192 == 64 { e.command = B(if order & 3 == 0 { near(e.binary(), order >> 2) } else if order & 7 == 5 { alias(e.binary(), order >> 3) } else { e.binary() }) }
        if same & 208 == 128 && e.runas_user.is_some() { e.runas_user = Some(e.user.clone()) }
        e.wellformed()
    }).boxed()
}

pub fn kind() -> BoxedStrategy<PairKind> { prop_oneof![3 => Just(PairKind::User), 2 => Just(PairKind::Group)].boxed() }

/// An invocation that needs a pair.
pub fn paired_env() -> BoxedStrategy<Env> { (any_env(), kind()).prop_map(|(e, k)| e.paired(k)).boxed() }

/// An invocation that does not: one or more exemptions forced.
pub fn exempt_env() -> BoxedStrategy<Env> {
    (any_env(), 0u8..6).prop_map(|(mut e, k)| {
        if e.exempt() { return e }
        match k {
            0 => e.euid = e.uid,
            1 => { e.runas_euid = Some(e.uid.min(u32::MAX - 1)); e.uid = e.uid.min(u32::MAX - 1); e.gid = e.gid.min(u32::MAX - 1); e.runas_egid = Some(e.gid); }
            2 => e.command = B(e.binary()),
            3 => { e.iolog[1] = None; e.iolog[2] = Some(false); e.iolog[4] = None }
            4 => e.gids_exempted = Some(B::from(csv(&e.groups))),
            _ => {
                let t: BTreeSet<u32> = e.t_gids().into_iter().collect();
                let g = (1..).find(|g| !t.contains(g)).unwrap();
                e.gids_enforced = Some(B::from(g.to_string()));
            }
        }
        e.wellformed()
    }).boxed()
}

/// A small, plain invocation needing a pair, for checks about something else.
pub fn plain_paired() -> BoxedStrategy<Env> {
    (kind(), select(vec![1000u32, 1001, 33, 5000]), select(vec![0u32, 7, 1002, 65534]), select(vec![0u32, 20, 5001]), pid(), [hint(), hint(), hint(), hint(), hint()], argv(), prop::bool::weighted(0.3))
        .prop_map(|(k, uid, tu, tg, pid, iolog, argv, pg)| Env {
            api: (1, 15), uid, euid: 0, gid: uid, egid: uid, groups: vec![uid, 27], user: "alice".into(), host: "host".into(), cwd: "/home/alice".into(),
            cols: Some(80), lines: Some(24), pid, ppid: 1, pgid: pid, sid: None, tcpgid: None, progname: "sudo".into(), runas_user: None, runas_group: None,
            prompt: None, login_class: None, selinux_role: None, selinux_type: None, auth_type: None, close_from: None, flags: 0, command: "/bin/ls".into(), argv,
            runas_uid: tu, runas_euid: None, runas_gid: tg, runas_egid: None, preserve_groups: pg, runas_groups: vec![tg], iolog, cmd_cwd: None,
            binary_path: None, gids_enforced: None, gids_exempted: None, user_env: vec![], extra: vec![], more: vec![], order: 0,
        }.paired(k)).boxed()
}
