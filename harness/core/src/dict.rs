//! Literals of the code under test, offered to the generators (as fuzzers do
//! with an automatic dictionary). They only bias inputs; no verdict depends
//! on them.

use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
    pub ints: Vec<u64>, pub strs: Vec<Vec<u8>>,
    /// Those the tree had none of when literals.txt was written: a change's own.
    pub new_ints: Vec<u64>, pub new_strs: Vec<Vec<u8>>,
}

/// The literals of the tree this was written for. `VERIF_LITERALS=<file>`
/// makes any check write it anew.
const KNOWN: &str = include_str!("literals.txt");

fn hex(b: &[u8]) -> String { b.iter().map(|c| format!("{:02x}", c)).collect() }

fn walk(p: &Path, out: &mut Vec<std::path::PathBuf>) {
    let mut es: Vec<_> = std::fs::read_dir(p).into_iter().flatten().flatten().map(|e| e.path()).collect();
    es.sort();
    for e in es {
        let n = e.file_name().unwrap_or_default().to_string_lossy().into_owned();
        if e.is_dir() {
            if n != "target" && n != "bindings" && !n.starts_with('.') { walk(&e, out) }
        } else if n.ends_with(".rs") || n == "sudo_approve" { out.push(e) }
    }
}

pub fn get() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut files = vec![];
        walk(&crate::repo(), &mut files);
        let (mut ints, mut strs) = (BTreeSet::new(), BTreeSet::new());
        for f in files {
            let Ok(b) = std::fs::read(&f) else { continue };
            scan(&b, &mut ints, &mut strs);
        }
        strs.retain(|s: &Vec<u8>| !s.is_empty() && s.len() <= 64 && !s.contains(&0));
        if let Ok(f) = std::env::var("VERIF_LITERALS") {
            let t: String = ints.iter().map(|i| format!("i {}\n", i)).chain(strs.iter().map(|s| format!("s {}\n", hex(s)))).collect();
            let _ = std::fs::write(f, t);
        }
        let known: std::collections::HashSet<&str> = KNOWN.lines().collect();
        let new_strs: Vec<Vec<u8>> = strs.iter().filter(|s| !known.contains(format!("s {}", hex(s)).as_str())).cloned().collect();
        let mut new_ints: BTreeSet<u64> = ints.iter().copied().filter(|i| !known.contains(format!("i {}", i).as_str())).collect();
        for set in [&mut ints, &mut new_ints] {
            for i in set.clone() {
                set.insert(i.wrapping_add(1));
                set.insert(i.wrapping_sub(1));
            }
        }
        // what's new is worth half the draws
        let mut strs: Vec<Vec<u8>> = strs.into_iter().collect();
        let mut ints: Vec<u64> = ints.into_iter().collect();
        let new_ints: Vec<u64> = new_ints.into_iter().collect();
        strs.extend(new_strs.iter().cycle().take(if new_strs.is_empty() { 0 } else { strs.len() }).cloned().collect::<Vec<_>>());
        ints.extend(new_ints.iter().copied().cycle().take(if new_ints.is_empty() { 0 } else { ints.len() }).collect::<Vec<_>>());
        Dict { ints, strs, new_ints, new_strs }
    })
}

const NAMED: &[(&str, u64)] = &[
    ("u8::MAX", 0xff), ("i8::MAX", 0x7f), ("u16::MAX", 0xffff), ("i16::MAX", 0x7fff), ("u32::MAX", 0xffff_ffff), ("i32::MAX", 0x7fff_ffff), ("PATH_MAX", 4096), ("NAME_MAX", 255), ("PIPE_BUF", 4096), ("BUFSIZ", 8192),
    ("NGROUPS_MAX", 65536), ("FD_SETSIZE", 1024), ("ARG_MAX", 131_072), ("LINE_MAX", 2048), ("IOV_MAX", 1024), ("UIO_MAXIOV", 1024), ("SOMAXCONN", 4096), ("HOST_NAME_MAX", 64), ("LOGIN_NAME_MAX", 256),
];

fn scan(b: &[u8], ints: &mut BTreeSet<u64>, strs: &mut BTreeSet<Vec<u8>>) {
    let mut i = 0;
    let mut left: Option<(u64, u8)> = None;
    while i < b.len() {
        if b[i..].starts_with(b"//") {
            while i < b.len() && b[i] != b'\n' { i += 1 }
        } else if b[i] == b'"' {
            let mut s = vec![];
            i += 1;
            while i < b.len() && b[i] != b'"' {
                if b[i] == b'\\' && i + 1 < b.len() {
                    i += 1;
                    match b[i] {
                        b'n' => s.push(b'\n'), b't' => s.push(b'\t'), b'r' => s.push(b'\r'), b'0' => s.push(0),
                        b'x' if i + 2 < b.len() => {
                            if let Some(v) = std::str::from_utf8(&b[i + 1..i + 3]).ok().and_then(|h| u8::from_str_radix(h, 16).ok()) { s.push(v) }
                            i += 2;
                        }
                        c => s.push(c),
                    }
                } else { s.push(b[i]) }
                i += 1;
            }
            i += 1;
            let _ = strs.insert(s);
        } else if b[i] == b'\'' && i + 2 < b.len() && b[i + 2] == b'\'' {
            let _ = strs.insert(vec![b[i + 1]]);
            let _ = ints.insert(u64::from(b[i + 1]));
            i += 3;
        } else if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') { i += 1 }
            let t: String = String::from_utf8_lossy(&b[st..i]).replace('_', "");
            let (radix, t) = if let Some(x) = t.strip_prefix("0x") { (16, x.to_string()) }
                else if let Some(x) = t.strip_prefix("0o") { (8, x.to_string()) }
                else if let Some(x) = t.strip_prefix("0b") { (2, x.to_string()) } else { (10, t) };
            let t: String = t.chars().take_while(|c| c.is_digit(radix)).collect();
            if let Ok(v) = u64::from_str_radix(&t, radix) {
                let _ = ints.insert(v);
                // 64 * 1024, 1 << 16
                let mut sum = v;
                if let Some((l, op)) = left.take() {
                    let w = match op { b'*' => l.checked_mul(v), b'+' => l.checked_add(v), b'-' => l.checked_sub(v), b'/' => l.checked_div(v), _ => l.checked_shl(v.min(64) as u32) };
                    if let Some(w) = w { let _ = ints.insert(w); sum = w }
                }
                let mut j = i;
                while j < b.len() && b[j] == b' ' { j += 1 }
                let op = if b[j..].starts_with(b"<<") { j += 1; Some(b'<') } else { b.get(j).copied().filter(|c| b"*+-/".contains(c) && !b[j..].starts_with(b"//")) };
                if let Some(op) = op {
                    j += 1;
                    while j < b.len() && b[j] == b' ' { j += 1 }
                    if b.get(j).map_or(false, u8::is_ascii_digit) { left = Some((sum, op)); i = j }
                }
            }
        } else if b[i].is_ascii_alphabetic() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i..].starts_with(b"::") || (b[i] == b':' && b[i - 1] == b':')) { i += 1 }
            let t = String::from_utf8_lossy(&b[st..i]).into_owned();
            for (n, v) in NAMED { if t == *n || t.ends_with(&format!("::{}", n)) { let _ = ints.insert(*v); } }
        } else { i += 1 }
    }
}
