//! Memory whose bounds are enforced: every object ends (or starts) at a page
//! the process cannot touch.

use std::ptr;

const PAGE: usize = 4096;

struct Slot { base: *mut u8, len: usize, used: bool }

pub struct Pool { slots: Vec<Slot> }

fn map(len: usize) -> *mut u8 {
    unsafe {
        let total = len + 2 * PAGE;
        let p = libc::mmap(ptr::null_mut(), total, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        let base = p.cast::<u8>().add(PAGE);
        assert_eq!(libc::mprotect(base.cast(), len, libc::PROT_READ | libc::PROT_WRITE), 0);
        base
    }
}

impl Pool {
    pub fn new() -> Pool {
        let mut slots: Vec<Slot> = (0..192).map(|_| Slot { base: map(PAGE), len: PAGE, used: false }).collect();
        slots.extend((0..6).map(|_| Slot { base: map(32 * PAGE), len: 32 * PAGE, used: false }));
        Pool { slots }
    }
    pub fn reset(&mut self) { for s in &mut self.slots { s.used = false } }
    /// Copies `b` to guarded memory; `low` puts its first byte at the lower
    /// bound instead of its last one at the upper bound.
    pub fn put(&mut self, b: &[u8], align: usize, low: bool) -> *mut u8 {
        let k = match self.slots.iter().position(|s| !s.used && s.len >= b.len()) {
            Some(k) => k,
            None => {
                let len = (b.len() + PAGE - 1) / PAGE * PAGE;
                let len = len.max(PAGE);
                self.slots.push(Slot { base: map(len), len, used: false });
                self.slots.len() - 1
            }
        };
        let s = &mut self.slots[k];
        s.used = true;
        unsafe {
            let at = if low { s.base } else { s.base.add(s.len - b.len()) };
            debug_assert!(at as usize % align == 0);
            // anything around the object looks like an unterminated string
            ptr::write_bytes(s.base, b'=', s.len);
            ptr::copy_nonoverlapping(b.as_ptr(), at, b.len());
            at
        }
    }
    pub fn cstr(&mut self, b: &[u8], low: bool) -> *mut libc::c_char {
        let mut v = b.to_vec();
        v.push(0);
        self.put(&v, 1, low).cast()
    }
    /// A NULL-terminated vector of strings.
    pub fn vector(&mut self, v: &[vcore::B], low: bool) -> *mut *mut libc::c_char {
        let mut ptrs: Vec<usize> = v.iter().enumerate().map(|(i, b)| self.cstr(b, low ^ (i % 3 == 2)) as usize).collect();
        ptrs.push(0);
        let bytes: Vec<u8> = ptrs.iter().flat_map(|p| p.to_ne_bytes()).collect();
        self.put(&bytes, 8, low).cast()
    }
}
