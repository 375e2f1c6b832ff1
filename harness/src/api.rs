//! The interface between scenarios and whoever runs them: the symbolic engine,
//! or the native runner replaying concrete inputs.
use std::alloc::{GlobalAlloc, Layout};

mod ffi {
    extern "C" {
        pub fn vf_u64(lo: u64, hi: u64) -> u64;
        pub fn vf_byte() -> u8;
        pub fn vf_choose(n: u64) -> u64;
        pub fn vf_assume(c: bool);
        pub fn vf_check(c: bool, code: u64);
        pub fn vf_expect_panic(c: bool);
        pub fn vf_observe(x: u64);
        pub fn vf_cover(x: u64);
        pub fn vf_ite(c: bool);
        pub fn vf_limit(n: u64);
        pub fn vf_live() -> u64;
        pub fn vf_concrete(x: u64) -> u64;
        pub fn vf_alloc(size: u64, align: u64) -> *mut u8;
        pub fn vf_alloc_zeroed(size: u64, align: u64) -> *mut u8;
        pub fn vf_dealloc(p: *mut u8, size: u64, align: u64);
        pub fn vf_realloc(p: *mut u8, size: u64, align: u64, new: u64) -> *mut u8;
    }
}

/// any value in [lo, hi]
pub fn sym(lo: u64, hi: u64) -> u64 {
    unsafe { ffi::vf_u64(lo, hi) }
}
pub fn sym_usize(lo: usize, hi: usize) -> usize {
    unsafe { ffi::vf_u64(lo as u64, hi as u64) as usize }
}
/// any byte
pub fn byte() -> u8 {
    unsafe { ffi::vf_byte() }
}
/// one of 0..n, explored one by one
pub fn choose(n: usize) -> usize {
    unsafe { ffi::vf_choose(n as u64) as usize }
}
pub fn assume(c: bool) {
    unsafe { ffi::vf_assume(c) }
}
/// the property: must hold for all values on this path
pub fn check(c: bool, code: u64) {
    unsafe { ffi::vf_check(c, code) }
}
/// from here on a panic is (not) the documented behaviour
pub fn expect_panic(c: bool) {
    unsafe { ffi::vf_expect_panic(c) }
}
/// values compared between the engine and a native run
pub fn observe(x: u64) {
    unsafe { ffi::vf_observe(x) }
}
/// vacuity witness: this situation was reached
pub fn cover(x: u64) {
    unsafe { ffi::vf_cover(x) }
}
pub fn ite(c: bool) {
    unsafe { ffi::vf_ite(c) }
}
pub fn limit(n: u64) {
    unsafe { ffi::vf_limit(n) }
}
/// number of live heap allocations
pub fn live() -> u64 {
    unsafe { ffi::vf_live() }
}
pub fn concrete(x: u64) -> u64 {
    unsafe { ffi::vf_concrete(x) }
}

struct Hooked;
unsafe impl GlobalAlloc for Hooked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ffi::vf_alloc(l.size() as u64, l.align() as u64)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        ffi::vf_alloc_zeroed(l.size() as u64, l.align() as u64)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        ffi::vf_dealloc(p, l.size() as u64, l.align() as u64)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        ffi::vf_realloc(p, l.size() as u64, l.align() as u64, n as u64)
    }
}

#[global_allocator]
static A: Hooked = Hooked;

#[macro_export]
macro_rules! scenarios {
    ($($name:ident => $body:expr;)*) => {
        $(#[no_mangle] pub extern "C" fn $name() { $body })*
        pub static TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($name), $name)),*];
    };
}
