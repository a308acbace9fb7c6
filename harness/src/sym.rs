//! Symbolic primitives. Under the executor they are interpreted; natively they
//! are provided by native.c (which replays a recorded input).
#![allow(dead_code)]
mod ffi {
    unsafe extern "C" {
        pub fn sym_bytes(p: *mut u8, n: usize);
        pub fn sym_var(n: u32) -> u64;
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, p: *const u8, n: usize);
        pub fn sym_cover(p: *const u8, n: usize);
        pub fn sym_observe(v: u64);
        pub fn sym_concretize(v: u64) -> u64;
        pub fn sym_fmt_real();
        pub fn sym_empty_string(p: *const u8);
    }
}
/// Must be called first by every entry that may reach `format!`.
pub fn init() { let s = String::new(); unsafe { ffi::sym_empty_string(&s as *const String as *const u8) } }
pub fn fmt_real() { unsafe { ffi::sym_fmt_real() } }
pub fn bytes<const N: usize>() -> [u8; N] { let mut b = [0u8; N]; unsafe { ffi::sym_bytes(b.as_mut_ptr(), N) } b }
pub fn vec(n: usize) -> Vec<u8> { let mut b = vec![0u8; n]; unsafe { ffi::sym_bytes(b.as_mut_ptr(), n) } b }
pub fn u8() -> u8 { unsafe { ffi::sym_var(1) as u8 } }
pub fn u16() -> u16 { unsafe { ffi::sym_var(2) as u16 } }
pub fn u32() -> u32 { unsafe { ffi::sym_var(4) as u32 } }
pub fn u64() -> u64 { unsafe { ffi::sym_var(8) } }
pub fn i64() -> i64 { unsafe { ffi::sym_var(8) as i64 } }
pub fn i32() -> i32 { u32() as i32 }
pub fn bool() -> bool { let b = u8(); assume(b < 2); b == 1 }
/// A symbolic value below n, not forked.
pub fn below(n: u8) -> u8 { let b = u8(); assume(b < n); b }
/// A value in 0..n, one path per value.
pub fn choice(n: u8) -> usize { let b = below(n); concretize(b as u64) as usize }
#[inline(always)]
pub fn assume(c: bool) { unsafe { ffi::sym_assume(c) } }
#[inline(always)]
pub fn check(c: bool, id: &'static str) { unsafe { ffi::sym_assert(c, id.as_ptr(), id.len()) } }
#[inline(always)]
pub fn cover(id: &'static str) { unsafe { ffi::sym_cover(id.as_ptr(), id.len()) } }
#[inline(always)]
pub fn observe(v: u64) { unsafe { ffi::sym_observe(v) } }
#[inline(always)]
pub fn concretize(v: u64) -> u64 { unsafe { ffi::sym_concretize(v) } }
