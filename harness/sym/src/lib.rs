//! Primitives of the symbolic executor as seen by a harness.
//!
//! Under the engine `any` returns an unconstrained symbolic value and `check`
//! asks the solver; natively (see native.c) the values come from a case file.
#![no_std]

extern crate alloc;
use alloc::vec::Vec;

extern "C" {
    fn rsym_any(p: *mut u8, n: usize, name: *const u8, nl: usize);
    fn rsym_assume(c: u32);
    fn rsym_check(c: u32, name: *const u8, nl: usize);
    fn rsym_cover(name: *const u8, nl: usize);
    fn rsym_observe(v: u64);
    fn rsym_concretize(v: u64) -> u64;
    fn rsym_case() -> u64;
}

macro_rules! prim {
    ($($n:ident $t:ty),*) => {$(
        pub fn $n(name: &str) -> $t {
            let mut b = [0u8; core::mem::size_of::<$t>()];
            unsafe { rsym_any(b.as_mut_ptr(), b.len(), name.as_ptr(), name.len()) };
            <$t>::from_le_bytes(b)
        }
    )*};
}
prim!(any_u8 u8, any_u16 u16, any_u32 u32, any_u64 u64);

pub fn any_bool(name: &str) -> bool {
    let v = any_u8(name);
    assume(v < 2);
    v == 1
}
/// Symbolic value in `lo..=hi`; stays symbolic.
pub fn range(name: &str, lo: u64, hi: u64) -> u64 {
    let v = any_u64(name);
    assume(v >= lo && v <= hi);
    v
}
/// One of `0..n`, made concrete by forking: a nondeterministic choice.
pub fn choose(name: &str, n: usize) -> usize {
    let v = any_u8(name);
    assume((v as usize) < n);
    unsafe { rsym_concretize(v as u64) as usize }
}
pub fn flip(name: &str) -> bool {
    choose(name, 2) == 1
}
pub fn bytes(name: &str, n: usize) -> Vec<u8> {
    (0..n).map(|_| any_u8(name)).collect()
}
pub fn concretize(v: u64) -> u64 {
    unsafe { rsym_concretize(v) }
}
pub fn assume(c: bool) {
    unsafe { rsym_assume(c as u32) }
}
pub fn check(c: bool, name: &str) {
    unsafe { rsym_check(c as u32, name.as_ptr(), name.len()) }
}
/// Reachability witness.
pub fn cover(name: &str) {
    unsafe { rsym_cover(name.as_ptr(), name.len()) }
}
/// Value compared between the engine and the native build.
pub fn observe(v: u64) {
    unsafe { rsym_observe(v) }
}
/// Value given with --case.
pub fn case() -> u64 {
    unsafe { rsym_case() }
}

#[repr(C)]
pub struct Entry {
    pub name: *const core::ffi::c_char,
    pub f: extern "C" fn(),
}

extern "C" {
    pub fn rsym_main(t: *const Entry, n: usize, argc: i32, argv: *const *const core::ffi::c_char) -> i32;
}

/// Declares the harnesses of a binary: exported symbols plus `main`.
#[macro_export]
macro_rules! harnesses {
    ($($sym:ident => $path:path;)*) => {
        $(#[no_mangle] pub extern "C" fn $sym() { $path() })*
        fn main() {
            let t = [$($crate::Entry {
                name: concat!(stringify!($sym), "\0").as_ptr() as *const _,
                f: $sym,
            }),*];
            let args: Vec<std::ffi::CString> =
                std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
            let ptrs: Vec<*const std::ffi::c_char> = args.iter().map(|a| a.as_ptr()).collect();
            let r = unsafe { $crate::rsym_main(t.as_ptr(), t.len(), ptrs.len() as i32, ptrs.as_ptr()) };
            std::process::exit(r)
        }
    };
}
