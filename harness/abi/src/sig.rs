//! Calls in both directions with whatever signature a binding declares.

use std::mem::{size_of, MaybeUninit};

pub struct Seen { pub calls: u32, pub words: Vec<u64>, pub ret: u64 }
static mut SEEN: Seen = Seen { calls: 0, words: vec![], ret: 0 };
pub fn seen() -> &'static mut Seen { unsafe { &mut *std::ptr::addr_of_mut!(SEEN) } }

/// I and U for C's int and unsigned int, P for a pointer (data or function),
/// V for none; anything else by its name.
pub fn kind<T>() -> String {
    let n = std::any::type_name::<T>();
    let pointer = n.starts_with('*') || n.starts_with("core::option::Option<unsafe extern \"C\" fn") || n.starts_with("unsafe extern \"C\" fn");
    match n { "i32" => "I".into(), "u32" => "U".into(), "()" => "V".into(), _ if pointer && size_of::<T>() == size_of::<usize>() => "P".into(), _ => format!("[{} of {}]", n, size_of::<T>()) }
}
/// The value widened to 64 bits by its type's own sign.
pub fn word<T>(t: &T) -> u64 {
    let mut b = [0u8; 8];
    let n = size_of::<T>().min(8);
    unsafe { std::ptr::copy_nonoverlapping((t as *const T).cast::<u8>(), b.as_mut_ptr(), n) }
    let v = u64::from_le_bytes(b);
    if std::any::type_name::<T>().starts_with('i') && n < 8 && n > 0 { let s = 64 - 8 * n as u32; ((v << s) as i64 >> s) as u64 } else { v }
}
pub fn put<T>(m: &mut T, v: u64) { unsafe { std::ptr::copy_nonoverlapping(v.to_le_bytes().as_ptr(), (m as *mut T).cast::<u8>(), size_of::<T>().min(8)) } }
unsafe fn of<T>(v: u64) -> T {
    let mut m = MaybeUninit::<T>::zeroed();
    std::ptr::copy_nonoverlapping(v.to_le_bytes().as_ptr(), m.as_mut_ptr().cast::<u8>(), size_of::<T>().min(8));
    m.assume_init()
}

pub trait Sig: Sized {
    fn sig() -> String;
    /// A function of this type that records its arguments.
    fn recorder() -> Self;
    unsafe fn call(self, w: &[u64]) -> u64;
}
macro_rules! sig {
    ($($A:ident)*) => {
        impl<R, $($A),*> Sig for Option<unsafe extern "C" fn($($A),*) -> R> {
            fn sig() -> String {
                #[allow(unused_mut)] let mut s = String::new();
                $( s += &kind::<$A>(); )*
                s + ">" + &kind::<R>()
            }
            fn recorder() -> Self {
                #[allow(non_snake_case)]
                unsafe extern "C" fn record<R, $($A),*>($($A: $A),*) -> R {
                    let s = seen();
                    s.calls += 1;
                    s.words = vec![$(word(&$A)),*];
                    of(s.ret)
                }
                Some(record::<R, $($A),*>)
            }
            #[allow(unused_variables, unused_mut)]
            unsafe fn call(self, w: &[u64]) -> u64 {
                let mut i = w.iter();
                let r = (self.expect("a function"))($( of::<$A>(*i.next().unwrap_or(&0)) ),*);
                word(&r)
            }
        }
    };
}
sig!();
sig!(A);
sig!(A B);
sig!(A B C);
sig!(A B C D);
sig!(A B C D E);
sig!(A B C D E F);
sig!(A B C D E F G);
sig!(A B C D E F G H);
sig!(A B C D E F G H J);
sig!(A B C D E F G H J K);
sig!(A B C D E F G H J K L);
sig!(A B C D E F G H J K L M);
sig!(A B C D E F G H J K L M O);

/// The type of a callback's second parameter.
pub trait Second { type T: Sig; }
impl<A, B: Sig, R> Second for Option<unsafe extern "C" fn(A, B) -> R> { type T = B; }
