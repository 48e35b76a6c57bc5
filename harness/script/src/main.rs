//! C25: the approval script, run by generated users on generated sockets with
//! stand-ins for the commands that would have effects.

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::ffi::{CString, OsStr};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::{symlink, PermissionsExt};
use std::os::unix::net::UnixListener;
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use vcore::gen::*;
use vcore::{Check, Outcome, Tier, B};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sock { uid: String, pid: String, owner: u32, group: u32, mode: u32 }

#[derive(Clone, Debug, Serialize, Deserialize)]
struct V {
    args: Vec<B>,
    uid: u32, gid: u32, groups: Vec<u32>,
    /// The user behind sudo, who is the script's own otherwise.
    sudo_uid: Option<u32>,
    sockets: Vec<Sock>,
    dir_mode: u32,
    env: Vec<(String, String)>,
    how: u8, spaces: bool, status: u8, umask: u32,
}

struct C25 { root: PathBuf, n: u64, users: Vec<u32>, groups: Vec<u32> }

fn ids(file: &str) -> Vec<u32> { std::fs::read_to_string(file).unwrap_or_default().lines().filter_map(|l| l.split(':').nth(2)?.parse().ok()).collect() }
fn name_of(user: bool, id: u32) -> Option<String> {
    unsafe {
        let p = if user { let p = libc::getpwuid(id); if p.is_null() { return None } (*p).pw_name } else { let p = libc::getgrgid(id); if p.is_null() { return None } (*p).gr_name };
        Some(std::ffi::CStr::from_ptr(p).to_string_lossy().into_owned())
    }
}

const DIR: &str = "/var/run/sudo_pair";
const OUT: &str = env!("OUT_DIR");
const STANDINS: [&str; 15] = ["sudo", "socat", "stty", "clear", "nc", "ncat", "canary", "telnet", "su", "doas", "runuser", "setpriv", "tput", "reset", "pkexec"];

impl C25 {
    fn new() -> C25 {
        let root = PathBuf::from(format!("/tmp/vscript.{}", std::process::id()));
        let mut users = ids("/etc/passwd");
        users.retain(|u| *u < 70000);
        users.truncate(24);
        let mut groups = ids("/etc/group");
        groups.retain(|u| *u < 70000);
        C25 { root, n: 0, users, groups }
    }
}
impl Drop for C25 { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.root); } }

fn plain(b: &[u8]) -> bool { !b.is_empty() && b.iter().all(u8::is_ascii_digit) }
/// A number written the way the plugin writes it.
fn canonical(b: &[u8]) -> bool { plain(b) && (b == b"0" || b[0] != b'0') && b.len() <= 18 }

#[derive(Debug, PartialEq)]
enum Act { Connect(String), User(String, Vec<String>), Group(String, Vec<String>), Other(String) }

fn acts(record: &[u8]) -> Vec<Act> {
    let mut it = record.split(|b| *b == 0).map(|b| String::from_utf8_lossy(b).into_owned());
    let mut out = vec![];
    while let Some(n) = it.next() {
        let Ok(n) = n.parse::<usize>() else { break };
        let argv: Vec<String> = (0..n).filter_map(|_| it.next()).collect();
        let all = argv.join(" ");
        match argv.first().map_or("", |s| s) {
            "stty" | "clear" | "tput" | "reset" => (),
            "socat" => {
                let t: Vec<&String> = argv[1..].iter().filter(|a| !a.starts_with('-')).collect();
                let far: Vec<&str> = t.iter().filter_map(|a| { let l = a.to_ascii_lowercase(); ["unix-connect:", "unix:", "unix-client:", "gopen:", "unix-stream:"].iter().find(|p| l.starts_with(**p)).map(|p| &a[p.len()..]) }).collect();
                let near = t.iter().filter(|a| { let l = a.to_ascii_lowercase(); l == "stdio" || l == "-" || l.starts_with("stdio,") }).count() + argv[1..].iter().filter(|a| *a == "-").count();
                if far.len() == 1 && near == 1 { out.push(Act::Connect(far[0].split(',').next().unwrap_or("").to_string())) } else { out.push(Act::Other(all)) }
            }
            "nc" | "ncat" => out.push(if argv.iter().any(|a| a.starts_with('-') && a.contains('U')) { Act::Connect(argv.last().cloned().unwrap_or_default()) } else { Act::Other(all) }),
            "sudo" => {
                let (mut user, mut group, mut rest) = (None, None, vec![]);
                let mut i = 1;
                let mut odd = false;
                while i < argv.len() {
                    let a = argv[i].as_str();
                    let mut value = |k: usize| { i += 1; if a.len() > k { a[k..].to_string() } else { i += 1; argv.get(i - 1).cloned().unwrap_or_default() } };
                    match a {
                        "--" => { rest = argv[i + 1..].to_vec(); break }
                        _ if a.starts_with("--user=") => { user = Some(a[7..].to_string()); i += 1 }
                        _ if a.starts_with("--group=") => { group = Some(a[8..].to_string()); i += 1 }
                        "--user" => { user = argv.get(i + 1).cloned(); i += 2 }
                        "--group" => { group = argv.get(i + 1).cloned(); i += 2 }
                        _ if a.starts_with("-u") => user = Some(value(2)),
                        _ if a.starts_with("-g") => group = Some(value(2)),
                        _ if a.starts_with('-') => { odd = true; i += 1 }
                        _ => { rest = argv[i..].to_vec(); break }
                    }
                }
                out.push(match (odd, user, group) { (false, Some(u), None) => Act::User(u, rest), (false, None, Some(g)) => Act::Group(g, rest), _ => Act::Other(all) });
            }
            _ => out.push(Act::Other(all)),
        }
    }
    out
}

impl Check for C25 {
    type Case = V;
    fn id(&self) -> &'static str { "C25" }
    fn rule(&self) -> &'static str { "two arguments, and either not both plain numbers or naming a socket that is there" }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["SUDO_UID is set by sudo and nobody else", "numbers with leading zeros or of more than 18 digits name no session; only safety is required of them",
             "the script reaches the network only through socat or nc, and other users only through sudo: those are recorded by stand-ins", "owners without a passwd or group entry can't be named to sudo"]
    }
    fn cases(&self, t: Tier) -> u64 { t.pick(6000, 90_000) }
    fn shrink_limit(&self) -> u32 { 250 }
    fn strategy(&self, _t: Tier) -> BoxedStrategy<V> {
        let user = prop_oneof![3 => select(self.users.clone()), 2 => Just(0u32), 2 => select(self.users[..4].to_vec()), 1 => Just(4242u32)];
        let group = prop_oneof![3 => select(self.groups.clone()), 2 => select(self.groups[..4].to_vec()), 1 => Just(4243u32)];
        let num = prop_oneof![3 => user.clone().prop_map(|u| u.to_string()), 2 => (1u32..40000).prop_map(|u| u.to_string()), 1 => any::<u32>().prop_map(|u| u.to_string())];
        let hostile = select(vec![
            "", "a", "1 ", " 1", "-1", "+1", "1.0", "0x1", "1e1", "x[$(canary)]", "a[`canary`]", "$(canary)", "`canary`", ";canary", "1;canary", "1|canary", "&canary", "uid", "pid", "ruid", "SUDO_UID", "socket_path", "UID", "EUID", "PPID",
            "../../etc/1", "/", "1/../1", "-w", "--help", "-h", "1\n2", "1\n", "\n1", "1\ncanary", "*", "?", "[0-9]", "{1,2}", "~", "!", "1 -o 1", "(1)", "1+1", "1-1", "2*3", "1,2", "10#5", "2#1", "1==1", "BASH_VERSINFO[0]", "RANDOM", "a[0$(canary)]",
            "$((1+1))", "${PATH}", "\"", "'", "\\", "%s", "٣", "１", "1\u{a0}", "1#", "#", "1=", "x=1", "BASH_ARGV[$(canary)0]", "BASH_VERSINFO[$(canary)]", "1+BASH_VERSINFO[$(canary)]", "-n", "-e"]).prop_map(B::from);
        // what a number of a real session may be dressed up with
        let around = (select(vec!["", "", "", "", "", " ", "\n", "\n\n", "+", "-", "00x", "0x", "10#", "a\n", "BASH_VERSINFO[$(canary)]\n", "-w\n", "../", "./", "\u{feff}", "'", "\t"]),
                      select(vec!["", "", "\n", "\n\n", "\n+0", "\n+1", "\n+BASH_VERSINFO[$(canary)]", "\n,BASH_VERSINFO[$(canary)]", "\nBASH_VERSINFO[$(canary)]", "\na", " ", "\t", "+0", "+BASH_VERSINFO[$(canary)]", ",1", "#", ";canary", "\n;canary", "|canary", "\n$(canary)", "`canary`", "/", ".0", "a", "\r", "\u{b2}", "'", "*", "?", "0x", "e0", "\n\n\n7"]), 0usize..2);
        let noncanon = prop_oneof![(0u32..20, 1usize..4).prop_map(|(v, z)| format!("{}{}", "0".repeat(z), v)), select(self.users.clone()).prop_map(|u| format!("0{:o}", u)), select(self.users.clone()).prop_map(|u| (u128::from(u) + (1u128 << 64)).to_string()),
            Just("99999999999999999999999".to_string()), Just("18446744073709551616".to_string())].prop_map(|s| B::from(s.as_str()));
        let sock = (num.clone(), (1u32..60).prop_map(|p| p.to_string()), user.clone(), group.clone(), prop_oneof![4 => select(vec![0o200u32, 0o020, 0o220, 0, 0o600, 0o660, 0o700, 0o222, 0o002, 0o400, 0o755, 0o060, 0o1020, 0o4200, 0o6220]), 1 => 0u32..0o10000])
            .prop_map(|(uid, pid, owner, group, mode)| Sock { uid, pid, owner, group, mode });
        let key = select(vec!["TRACE", "SUDO_SOCKET_PATH", "socket_path", "socket", "uid", "pid", "ruid", "SUDO_USER", "SUDO_GID", "SUDO_COMMAND", "UID", "socket_uid", "IFS", "CDPATH", "USER", "LOGNAME", "socket_user", "socket_mode", "POSIXLY_CORRECT"]).prop_map(String::from);
        let val = prop_oneof![2 => Just("1".to_string()), 2 => num.clone(), 1 => Just("@decoy".to_string()), 1 => Just("".to_string()), 1 => Just("200".to_string())];
        // what the first socket has to do with the caller
        let relation = (0u8..10, 0u8..10, 0u8..8, 0u8..8);
        (vec(sock, 0..4), (user.clone(), group.clone(), vec(group, 0..4), proptest::option::weighted(0.4, user)), relation, prop_oneof![11 => Just((None, None)), 4 => around.prop_map(|a| (None, Some(a))), 5 => vec(prop_oneof![3 => hostile, 2 => noncanon, 2 => num.clone().prop_map(|s| B::from(s.as_str())), 1 => cstr(8)], 2).prop_map(|v| (Some(v), None)), 1 => vec(num.prop_map(|s| B::from(s.as_str())), 0..5).prop_map(|v| (Some(v), None))],
         prop_oneof![6 => Just(0o755u32), 2 => Just(0o711), 1 => Just(0o700), 1 => Just(0o750)], vec((key, val), 0..3), 0u8..4, any::<bool>(), prop_oneof![3 => Just(0u8), 1 => 1u8..5], select(vec![0o022u32, 0o077, 0, 0o777]), any::<bool>())
            .prop_map(|(mut sockets, (mut uid, gid, mut groups, mut sudo_uid), (own, named, missing, g), (odd, around), dir_mode, env, how, spaces, status, umask, half)| {
                let mut args = vec![B::from("77"), B::from("7")];
                if let Some(s) = sockets.first_mut() {
                    args = vec![B::from(s.uid.as_str()), B::from(s.pid.as_str())];
                    // the session's own user
                    if own < 3 { if let Ok(u) = s.uid.parse::<u32>() { if sudo_uid.is_some() { sudo_uid = Some(u) } else if u < 70000 { uid = u } } }
                    // re-run as the socket's owner
                    if own == 4 || own == 5 { sudo_uid = Some(sudo_uid.unwrap_or(uid)); uid = s.owner }
                    if g == 0 { groups.push(s.group) }
                    if missing == 0 { args[1] = B::from("61") }
                }
                if let Some(v) = odd {
                    if v.len() == 2 && half { args[usize::from(named % 2)] = v[0].clone() } else { args = v }
                }
                if let Some((pre, post, i)) = around { if i < args.len() {
                    let mut a = pre.as_bytes().to_vec();
                    a.extend_from_slice(&args[i]);
                    a.extend_from_slice(post.as_bytes());
                    args[i] = B(a);
                } }
                V { args, uid, gid, groups, sudo_uid, sockets, dir_mode, env, how, spaces, status, umask }
            }).boxed()
    }
    fn run(&mut self, c: &V) -> Outcome {
        let mut o = Outcome::new(false);
        self.n += 1;
        let work = self.root.join(if c.spaces { format!("a b{}", self.n) } else { format!("c{}", self.n) });
        if let Err(e) = self.one(c, &work, &mut o) { o.inconclusive(format!("set-up: {}", e)) }
        if let Err(e) = std::fs::remove_dir_all(&work) { o.inconclusive(format!("tidying up: {}", e)) }
        o
    }
}

impl C25 {
    fn one(&self, c: &V, work: &PathBuf, o: &mut Outcome) -> std::io::Result<()> {
        let chmod = |p: &PathBuf, m: u32| std::fs::set_permissions(p, std::fs::Permissions::from_mode(m));
        let bin = work.join("bin");
        std::fs::create_dir_all(&bin)?;
        std::fs::copy(format!("{}/standin", OUT), bin.join("standin"))?;
        std::fs::copy(format!("{}/redirect.so", OUT), work.join("redirect.so"))?;
        chmod(&work.join("redirect.so"), 0o755)?;
        chmod(&bin.join("standin"), 0o755)?;
        for s in STANDINS { symlink("standin", bin.join(s))?; }
        let record = work.join("record");
        std::fs::write(&record, b"")?;
        chmod(&record, 0o666)?;
        let script = work.join("sudo_approve");
        std::fs::copy(vcore::repo().join("sample/bin/sudo_approve"), &script)?;
        chmod(&script, 0o755)?;
        for p in [work, &bin, &self.root] { chmod(p, 0o755)? }
        // the sockets, and decoys elsewhere
        let (dir, decoy) = (work.join("run"), work.join("decoy"));
        for (d, open) in [(&dir, false), (&decoy, true)] {
            std::fs::create_dir(d)?;
            let mut seen = std::collections::HashSet::new();
            for s in &c.sockets {
                if !seen.insert((&s.uid, &s.pid)) { continue }
                let p = d.join(format!("{}.{}.sock", s.uid, s.pid));
                drop(UnixListener::bind(&p)?);
                let cp = CString::new(p.as_os_str().as_bytes())?;
                let (u, g) = if open { (c.uid, c.gid) } else { (s.owner, s.group) };
                if unsafe { libc::chown(cp.as_ptr(), u, g) } != 0 { return Err(std::io::Error::last_os_error()) }
                chmod(&p, if open { 0o777 } else { s.mode })?;
            }
            chmod(d, if open { 0o755 } else { c.dir_mode })?;
        }
        let home = work.join("home");
        std::fs::create_dir(&home)?;
        chmod(&home, 0o777)?;

        let path = |p: &PathBuf| p.to_string_lossy().into_owned();
        let mut redirect: Vec<String> = vec![format!("{}={}", DIR, path(&dir)), format!("/run/sudo_pair={}", path(&dir))];
        for s in ["sudo", "socat", "nc", "stty", "clear", "su"] { for d in ["/usr/bin/", "/bin/"] { redirect.push(format!("{}{}={}", d, s, path(&bin.join(s)))) } }
        let (program, first): (String, Option<String>) = match c.how { 0 => (path(&script), None), 1 => ("sudo_approve".into(), None), 2 => ("../sudo_approve".into(), None), _ => ("/bin/bash".into(), Some(path(&script))) };
        let mut cmd = Command::new(&program);
        if let Some(f) = first { cmd.arg(f); }
        cmd.args(c.args.iter().map(|a| OsStr::from_bytes(a)));
        cmd.env_clear().env("PATH", format!("{}:{}:/usr/bin:/bin", path(&bin), path(work))).env("HOME", "/").env("LD_PRELOAD", path(&work.join("redirect.so"))).env("REDIRECT", redirect.join("\n")).env("STANDIN_STATUS", c.status.to_string());
        // LD_PRELOAD is a list separated by spaces
        if c.spaces { let so = self.root.join("redirect.so"); if !so.exists() { std::fs::copy(work.join("redirect.so"), &so)?; chmod(&so, 0o755)? } cmd.env("LD_PRELOAD", path(&so)); }
        for (k, v) in &c.env { if k != "UID" { cmd.env(k, if v == "@decoy" { path(&decoy) } else { v.clone() }); } }
        if let Some(u) = c.sudo_uid { cmd.env("SUDO_UID", u.to_string()); }
        let out = std::fs::File::create(work.join("output"))?;
        cmd.current_dir(&home).stdin(Stdio::null()).stdout(out.try_clone()?).stderr(out);
        let (uid, gid, groups, umask) = (c.uid, c.gid, c.groups.clone(), c.umask);
        unsafe { cmd.pre_exec(move || {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::setsid();
            libc::umask(umask);
            if libc::setgroups(groups.len(), groups.as_ptr()) != 0 || libc::setresgid(gid, gid, gid) != 0 || libc::setresuid(uid, uid, uid) != 0 { return Err(std::io::Error::last_os_error()) }
            Ok(())
        }); }
        let mut child = cmd.spawn()?;
        let pid = child.id() as i32;
        let until = std::time::Instant::now() + std::time::Duration::from_secs(60);
        let status = loop {
            match child.try_wait()? {
                Some(s) => break s,
                None if std::time::Instant::now() > until => {
                    unsafe { libc::kill(-pid, libc::SIGKILL); }
                    child.wait()?;
                    o.inconclusive("the script did not end");
                    return Ok(())
                }
                None => std::thread::sleep(std::time::Duration::from_millis(1)),
            }
        };
        unsafe { libc::kill(-pid, libc::SIGKILL); }

        // what it did
        let got = acts(&std::fs::read(&record)?);
        let text = std::fs::read(work.join("output"))?;
        let told = || vcore::bytes::show(&text[..text.len().min(300)]);
        if std::fs::read_dir(&home)?.next().is_some() { o.fail("the script left files in its working directory"); return Ok(()) }
        let failed = !status.success();

        // what it may do
        if c.args.len() != 2 {
            o.class("wrong number of arguments");
            o.check(got.is_empty() && failed, || format!("{} arguments: did {:?}, {}", c.args.len(), got, status));
            return Ok(())
        }
        let (a, b) = (&c.args[0], &c.args[1]);
        if !plain(a) || !plain(b) {
            o.nontrivial = true;
            o.class("an argument is not a number");
            o.check(got.is_empty() && failed, || format!("arguments that aren't numbers: did {:?}, {}: {}", got, status, told()));
            return Ok(())
        }
        let ruid = c.sudo_uid.unwrap_or(c.uid);
        if !canonical(a) || !canonical(b) {
            o.nontrivial = true;
            o.class("an argument is an odd number");
            for g in &got {
                let (p, rerun) = match g {
                    Act::Connect(p) => (p.clone(), None),
                    Act::User(_, r) | Act::Group(_, r) => (String::new(), Some(r.clone())),
                    Act::Other(x) => { o.fail(format!("ran {}", x)); return Ok(()) }
                };
                if let Some(r) = rerun {
                    let ok = r.len() == 3 && plain(r[1].as_bytes()) && plain(r[2].as_bytes()) && c.sockets.iter().any(|s| r[1] == s.uid && r[2] == s.pid && r[1] != ruid.to_string());
                    o.check(ok, || format!("for {:?} re-ran {:?}", c.args, r));
                } else {
                    let ok = c.sockets.iter().any(|s| p == format!("{}/{}.{}.sock", DIR, s.uid, s.pid) && s.uid != ruid.to_string());
                    o.check(ok, || format!("user {} was connected to {} with {:?}", ruid, p, c.args));
                }
            }
            o.check(got.len() < 2, || format!("did {:?}", got));
            return Ok(())
        }
        let (a, b) = (String::from_utf8_lossy(a).into_owned(), String::from_utf8_lossy(b).into_owned());
        let Some(s) = c.sockets.iter().find(|s| s.uid == a && s.pid == b) else {
            o.class("no such session");
            o.check(got.is_empty() && failed, || format!("no such session, yet did {:?}, {}", got, status));
            return Ok(())
        };
        o.nontrivial = true;
        if a == ruid.to_string() {
            o.class(if c.sudo_uid.is_some() { "own session, through sudo" } else { "own session" });
            o.check(got.is_empty() && failed, || format!("user {} on their own session: did {:?}, {}", ruid, got, status));
            return Ok(())
        }
        let root = c.uid == 0;
        let member = |g: u32| c.gid == g || c.groups.contains(&g);
        let reach = root || match c.dir_mode { 0o755 | 0o711 => true, 0o750 => member(0), _ => false };
        if !reach {
            o.class("the directory is closed to the user");
            o.check(got.is_empty() && failed, || format!("cannot reach the socket, yet did {:?}", got));
            return Ok(())
        }
        let may = root || if s.owner == c.uid { s.mode & 0o200 != 0 } else if member(s.group) { s.mode & 0o020 != 0 } else { s.mode & 0o002 != 0 };
        let socket = format!("{}/{}.{}.sock", DIR, a, b);
        let unnamed = name_of(true, s.owner).is_none() || name_of(false, s.group).is_none();
        let rerun = |rest: &Vec<String>| rest.len() == 3 && rest[1] == a && rest[2] == b && {
            let p = if rest[0].starts_with('/') { PathBuf::from(&rest[0]) } else { home.join(&rest[0]) };
            std::fs::canonicalize(p).ok() == std::fs::canonicalize(&script).ok()
        };
        let (class, ok) = if may {
            ("may write: connect", got == [Act::Connect(socket.clone())])
        } else if s.mode & 0o200 != 0 {
            ("owner may write: sudo -u", matches!(&got[..], [Act::User(u, r)] if Some(u) == name_of(true, s.owner).as_ref() && rerun(r) || u == &format!("#{}", s.owner) && rerun(r)))
        } else if s.mode & 0o020 != 0 {
            ("group may write: sudo -g", matches!(&got[..], [Act::Group(g, r)] if Some(g) == name_of(false, s.group).as_ref() && rerun(r) || g == &format!("#{}", s.group) && rerun(r)))
        } else {
            ("neither may write", got.is_empty() && failed)
        };
        o.class(class);
        o.class_if(unnamed, "owner or group without a name");
        if unnamed && got.is_empty() && failed { return Ok(()) }
        o.check(ok, || format!("{}: did {:?}, {}: {}", class, got, status, told()));
        Ok(())
    }
}

fn main() {
    match std::env::args().nth(1).unwrap_or_default().as_str() {
        "C25" => vcore::main(C25::new()),
        _ => { eprintln!("usage: vscript C25 [--replay file]"); std::process::exit(2) }
    }
}
