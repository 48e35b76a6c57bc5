use crate::probe::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use vcore::gen::*;
use vcore::B;

pub fn b(s: &str) -> B { B::from(s) }

/// Texts near, at and beyond the limits of every integer type.
pub fn int_text() -> BoxedStrategy<String> {
    let edges: Vec<i128> = [7u32, 8, 15, 16, 31, 32, 63, 64].iter().flat_map(|k| { let p = 1i128 << k; [p - 1, p, p + 1, -p - 1, -p, -p + 1] }).chain([0, 1, -1, 10, 99, 100, 1000]).collect();
    prop_oneof![
        6 => u32s().prop_map(|v| v.to_string()),
        4 => select(edges).prop_map(|v| v.to_string()),
        2 => any::<i64>().prop_map(|v| v.to_string()),
        1 => any::<u64>().prop_map(|v| v.to_string()),
        1 => (prop_oneof![3 => 0usize..4, 1 => len(100)], 0u32..1000).prop_map(|(z, v)| format!("{}{}", "0".repeat(z), v)),
        2 => select(vec!["", " ", "-", "--1", "1 ", " 1", "1_000", "0x10", "1e3", "1.0", "٣", "１", "99999999999999999999999999999999999999999999", "1a", "a1", "true", "1\n", "1,2", "½"]).prop_map(String::from),
    ].boxed()
}
pub fn bool_text() -> BoxedStrategy<String> {
    prop_oneof![3 => Just("true".to_string()), 3 => Just("false".to_string()), 1 => select(vec!["True", "TRUE", "yes", "1", "0", "", "t", "true ", " true", "falsee", "on", "tru", "fals"]).prop_map(String::from)].boxed()
}
pub fn addr() -> BoxedStrategy<String> {
    prop_oneof![
        4 => any::<[u8; 4]>().prop_map(|a| std::net::Ipv4Addr::from(a).to_string()),
        2 => any::<[u8; 16]>().prop_map(|a| std::net::Ipv6Addr::from(a).to_string()),
        1 => (any::<[u8; 16]>(), 0usize..16, 0usize..16).prop_map(|(mut a, i, n)| { for x in a.iter_mut().skip(i).take(n) { *x = 0 } std::net::Ipv6Addr::from(a).to_string() }),
        1 => select(vec!["255.255.255.0", "255.0.0.0", "ffff:ffff:ffff:ffff::", "::", "::1", "::ffff:1.2.3.4"]).prop_map(String::from),
        1 => select(vec!["", "1.2.3", "1.2.3.4.5", "256.1.1.1", "01.2.3.4", "fe80::1%eth0", "1.2.3.4 ", "localhost", "24", ":::", "é", "1.2.3.4:80", "[::1]"]).prop_map(String::from),
    ].boxed()
}
pub fn net_text() -> BoxedStrategy<String> {
    prop_oneof![
        6 => (addr(), addr()).prop_map(|(a, m)| format!("{}/{}", a, m)),
        1 => addr(),
        1 => (addr(), addr(), addr()).prop_map(|(a, m, x)| format!("{}/{}/{}", a, m, x)),
        1 => addr().prop_map(|a| format!("{}/", a)),
        1 => addr().prop_map(|a| format!("/{}", a)),
        1 => (addr(), 0u8..40).prop_map(|(a, n)| format!("{}/{}", a, n)),
        1 => select(vec!["/", "//", "é/é", "", "\u{2215}"]).prop_map(String::from),
    ].boxed()
}
pub fn list(e: BoxedStrategy<String>, sep: &'static str) -> BoxedStrategy<String> {
    prop_oneof![
        6 => vec(e.clone(), 0..6).prop_map(move |v| v.join(sep)),
        1 => vec(e.clone(), 0..6).prop_map(move |v| v.iter().map(|x| format!("{}{}", x, sep)).collect()),
        1 => (vec(e, 1..6), len(300)).prop_map(move |(v, n)| v.iter().cycle().take(n).cloned().collect::<Vec<_>>().join(sep)),
        1 => select(vec![",", " ", ",,", "1, 2", "1;2", "1 2", ";"]).prop_map(String::from),
    ].boxed()
}
pub fn good_list() -> BoxedStrategy<String> { prop_oneof![9 => vec(u32s(), 1..6).boxed(), 1 => len(300).prop_flat_map(|n| vec(u32s(), n.max(1))).boxed()].prop_map(|v: Vec<u64>| v.iter().map(u64::to_string).collect::<Vec<_>>().join(",")).boxed() }

/// A leading plus, or a minus on a zero, is not specified.
pub fn specified(t: &[u8]) -> bool {
    !t.split(|c| *c == b',' || *c == b' ').any(|e| e.starts_with(b"+") || e.starts_with(b"-") && !e[1..].is_empty() && e[1..].iter().all(|c| *c == b'0'))
}
pub fn bytes(s: BoxedStrategy<String>) -> BoxedStrategy<Vec<u8>> {
    prop_oneof![30 => s.prop_map(String::into_bytes), 1 => (cstr(6), any::<u8>()).prop_map(|(x, k)| { let mut v = x.0; v.push(k | 0x80); v })]
        .prop_map(|mut v| { v.retain(|c| *c != 0); v }).prop_filter("unspecified number", |v| specified(v)).boxed()
}

/// Text of an error or message; never NUL.
pub fn text() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[a-zA-Z0-9 .,:%-]{0,30}",
        1 => select(vec!["%s", "%n", "%n%n%n%n", "100%", "%%", "%5$s", "%.9999999s", "%d %x %p", "a\nb", "\n", "", "probe_a: x", "\x1b[31m", "%lls%*d", "ünïcode %s"]).prop_map(String::from),
        1 => "\\PC{0,20}",
        1 => cstr(300).prop_map(|b| String::from_utf8_lossy(&b).into_owned()),
        1 => long(9000).prop_map(|b| String::from_utf8_lossy(&b).into_owned()),
    ].prop_map(|s: String| s.replace('\0', "")).boxed()
}
pub fn kind() -> BoxedStrategy<Kind> { prop_oneof![4 => Just(Kind::A), 3 => Just(Kind::B), 1 => Just(Kind::C), 3 => Just(Kind::D)].boxed() }
pub fn payload() -> BoxedStrategy<Payload> {
    select(vec![Payload::Str, Payload::Empty, Payload::String, Payload::Int, Payload::Struct, Payload::Unwrap, Payload::Index, Payload::Arith, Payload::Resume]).boxed()
}
pub fn os() -> BoxedStrategy<OS> { prop_oneof![1 => Just(OS::Ok), 1 => Just(OS::Disable), 3 => Just(OS::Deny), 1 => Just(OS::Usage)].boxed() }
pub fn ls() -> BoxedStrategy<LS> { prop_oneof![1 => Just(LS::Ok), 3 => Just(LS::Deny), 1 => Just(LS::Disable)].boxed() }
pub fn er(longest: usize) -> BoxedStrategy<Er> {
    (prop_oneof![4 => vec(text(), 1..4), 1 => vec(text(), 1..longest)], os(), ls()).prop_map(|(texts, open, log)| Er { texts, open, log, panics: None }).boxed()
}
