//! What sudo_plugin(5) says the vectors mean.

use std::collections::BTreeMap;
use vcore::B;

pub struct M(pub BTreeMap<Vec<u8>, Vec<u8>>);

/// The number a text denotes: ASCII digits, with a minus for signed types.
pub fn int(t: &str, lo: i128, hi: i128) -> Option<i128> {
    let (neg, d) = match t.strip_prefix('-') { Some(d) if lo < 0 => (true, d), _ => (false, t) };
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) { return None }
    let mut v: i128 = 0;
    for b in d.bytes() { v = (v * 10 + i128::from(b - b'0')).min(1 << 80) }
    let v = if neg { -v } else { v };
    (lo <= v && v <= hi).then_some(v)
}
pub fn octal(t: &str) -> Option<i128> {
    if t.is_empty() || !t.bytes().all(|b| (b'0'..b'8').contains(&b)) { return None }
    let mut v: i128 = 0;
    for b in t.bytes() { v = (v * 8 + i128::from(b - b'0')).min(1 << 80) }
    (v <= 0xffff_ffff).then_some(v)
}
pub fn boolean(t: &str) -> Option<bool> { match t { "true" => Some(true), "false" => Some(false), _ => None } }
pub fn net(t: &str) -> Option<(std::net::IpAddr, std::net::IpAddr)> {
    let (a, m) = t.split_once('/')?;
    Some((a.parse().ok()?, m.parse().ok()?))
}

pub const U32: (i128, i128) = (0, 0xffff_ffff);
pub const I32: (i128, i128) = (-0x8000_0000, 0x7fff_ffff);
pub const U64: (i128, i128) = (0, 0xffff_ffff_ffff_ffff);

impl M {
    pub fn of(v: &[B]) -> M {
        let mut m = BTreeMap::new();
        for e in v {
            match e.iter().position(|b| *b == b'=') {
                Some(i) => m.insert(e[..i].to_vec(), e[i + 1..].to_vec()),
                None => m.insert(e.to_vec(), e.to_vec()),
            };
        }
        M(m)
    }
    pub fn raw(&self, k: &str) -> Option<&[u8]> { self.0.get(k.as_bytes()).map(|v| &v[..]) }
    pub fn s(&self, k: &str) -> Option<String> { self.raw(k).and_then(|b| std::str::from_utf8(b).ok()).map(str::to_owned) }
    pub fn b(&self, k: &str, d: bool) -> bool { self.s(k).and_then(|t| boolean(&t)).unwrap_or(d) }
    pub fn i(&self, k: &str, r: (i128, i128)) -> Option<i128> { int(&self.s(k)?, r.0, r.1) }
    pub fn oct(&self, k: &str) -> Option<i128> { octal(&self.s(k)?) }
    pub fn l(&self, k: &str, r: (i128, i128)) -> Option<Vec<i128>> { self.s(k)?.split(',').map(|e| int(e, r.0, r.1)).collect() }
    pub fn nets(&self, k: &str) -> Option<Vec<(std::net::IpAddr, std::net::IpAddr)>> { self.s(k)?.split(' ').map(net).collect() }
}
