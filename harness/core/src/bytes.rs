//! A byte string that prints and serialises losslessly as readable text.

use serde::{de::Error, Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;

#[derive(Clone, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct B(pub Vec<u8>);

pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b {
        match c {
            b'\\'        => s.push_str("\\\\"),
            0x20..=0x7e  => s.push(c as char),
            _            => s.push_str(&format!("\\x{:02x}", c)),
        }
    }
    s
}

impl B {
    pub fn parse(s: &str) -> Option<B> {
        let b = s.as_bytes();
        let mut v = vec![];
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'\\' {
                match b.get(i + 1)? {
                    b'\\' => { v.push(b'\\'); i += 2 }
                    b'x'  => { v.push(u8::from_str_radix(s.get(i + 2..i + 4)?, 16).ok()?); i += 4 }
                    _     => return None,
                }
            } else { v.push(b[i]); i += 1 }
        }
        Some(B(v))
    }
}
impl fmt::Debug for B { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "b\"{}\"", show(&self.0)) } }
impl Serialize for B { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&show(&self.0)) } }
impl<'de> Deserialize<'de> for B {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        B::parse(&s).ok_or_else(|| D::Error::custom("bad byte string"))
    }
}
impl From<&str> for B { fn from(s: &str) -> B { B(s.as_bytes().to_vec()) } }
impl From<String> for B { fn from(s: String) -> B { B(s.into_bytes()) } }
impl From<Vec<u8>> for B { fn from(s: Vec<u8>) -> B { B(s) } }
impl From<&[u8]> for B { fn from(s: &[u8]) -> B { B(s.to_vec()) } }
impl std::ops::Deref for B { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
