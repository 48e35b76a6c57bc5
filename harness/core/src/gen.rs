//! Generators shared by the checks.

use crate::{dict, B};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;

/// Mixes in, with small weight, values taken from the source's literals.
pub fn with_ints<S: Strategy<Value = u64> + 'static>(s: S, max: u64) -> BoxedStrategy<u64> {
    let d: Vec<u64> = dict::get().ints.iter().copied().filter(|v| *v <= max).collect();
    if d.is_empty() { s.boxed() } else { prop_oneof![12 => s, 1 => select(d)].boxed() }
}

/// A length up to `max`, short ones being likelier; the thresholds a change brings in are worth a try.
pub fn len(max: usize) -> BoxedStrategy<usize> {
    let max = max.max(1);
    let plain = (0.0f64..=1.0).prop_map(move |x| ((max as f64 + 1.0).powf(x) - 1.0).round() as usize);
    let d: Vec<usize> = dict::get().new_ints.iter().map(|v| usize::try_from(*v).unwrap_or(usize::MAX)).filter(|v| *v <= max).collect();
    if d.is_empty() { plain.boxed() } else { prop_oneof![1 => plain, 1 => select(d)].boxed() }
}

pub fn u32s() -> BoxedStrategy<u64> {
    with_ints(prop_oneof![
        4 => 0u64..200,
        2 => 0u64..70000,
        1 => select(vec![0u64, 1, 255, 256, 32767, 32768, 65534, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff]),
        1 => any::<u32>().prop_map(u64::from),
    ], 0xffff_ffff)
}

/// Bytes of a C string (no NUL): text, template-ish, control and high bytes.
pub fn cbyte() -> BoxedStrategy<u8> {
    prop_oneof![
        10 => prop_oneof![b'a'..=b'z', b'A'..=b'Z', b'0'..=b'9'],
        4 => select(b" /=.,:-_%\\'\"$`;|&<>()[]{}*?!#~^@+\n\t\r\x1b".to_vec()),
        1 => 1u8..=31,
        1 => 0x80u8..=0xff,
    ].boxed()
}

pub fn dict_str() -> BoxedStrategy<Vec<u8>> { select(dict::get().strs.clone()).boxed() }

/// A C string of any bytes.
pub fn cstr(max: usize) -> BoxedStrategy<B> {
    prop_oneof![
        8 => vec(cbyte(), 0..=max.min(24)).prop_map(B),
        2 => "[a-zA-Z0-9/._-]{1,12}".prop_map(B::from),
        1 => "\\PC{0,6}".prop_map(|s: String| B(s.into_bytes().into_iter().filter(|b| *b != 0).collect())),
        1 => vec(cbyte(), 0..=max).prop_map(B),
        1 => dict_str().prop_map(B),
        1 => (dict_str(), vec(cbyte(), 0..4)).prop_map(|(mut a, b)| { a.extend(b); B(a) }),
    ].boxed()
}

/// A C string that may be long.
pub fn long(max: usize) -> BoxedStrategy<B> {
    (prop_oneof![2 => vec(cbyte(), 1..9), 1 => vec(cbyte(), 1..200), 1 => dict_str()], len(max)).prop_map(|(t, n)| B(t.iter().copied().cycle().take(n).collect())).boxed()
}

/// A C string that is valid UTF-8.
pub fn utf8(max: usize) -> BoxedStrategy<B> {
    cstr(max).prop_map(|b| B(String::from_utf8_lossy(&b.0).into_owned().into_bytes())).boxed()
}

/// Arbitrary binary data with the given maximal length.
pub fn data(max: usize) -> BoxedStrategy<B> {
    let most: Vec<usize> = dict::get().new_ints.iter().filter_map(|v| usize::try_from(*v).ok()).filter(|v| (1..=2 << 20).contains(v)).collect();
    let plain = plain_data(max);
    if most.is_empty() { return plain }
    let big = (any::<u8>(), select(most)).prop_map(|(b, n)| B((0..n).map(|i| b.wrapping_add((i % 251) as u8)).collect()));
    prop_oneof![300 => plain, 1 => big].boxed()
}
fn plain_data(max: usize) -> BoxedStrategy<B> {
    prop_oneof![
        10 => vec(any::<u8>(), 0..=max.min(40)).prop_map(B),
        4 => vec(cbyte(), 0..=max.min(200)).prop_map(B),
        1 => vec(any::<u8>(), 0..=max).prop_map(B),
        1 => (any::<u8>(), 0..=max).prop_map(|(b, n)| B((0..n).map(|i| b.wrapping_add((i % 251) as u8)).collect())),
        1 => dict_str().prop_map(B),
    ].boxed()
}

/// Now and then an element that repeats the one before, as it is or as `other` makes it.
pub fn echoed<T: Clone + std::fmt::Debug + 'static>(v: BoxedStrategy<Vec<T>>, other: fn(T) -> T) -> BoxedStrategy<Vec<T>> {
    (v, prop_oneof![1 => Just(0u64), 1 => any::<u64>()]).prop_map(move |(mut v, k)| {
        for i in 1..if k == 0 { 0 } else { v.len() } {
            match crate::fnv(&(k.wrapping_add(i as u64)).to_le_bytes()) >> 20 & 7 {
                0 => v[i] = v[i - 1].clone(),
                1 => v[i] = other(v[i - 1].clone()),
                _ => (),
            }
        }
        v
    }).boxed()
}
