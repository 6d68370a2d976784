//! Harness interface: every function below is an event for the symbolic executor
//! (`/verif/lsx`) and, in a native replay, reads the solver's values from a tape.
#![allow(clippy::missing_safety_doc)]
extern "C" {
    fn nd_u8() -> u8;
    fn nd_u16() -> u16;
    fn nd_u32() -> u32;
    fn nd_u64() -> u64;
    fn nd_bool() -> bool;
    fn nd_f32() -> f32;
    fn nd_unit(lo: f32, hi: f32) -> f32;
    fn nd_assume(c: bool);
    fn nd_check(c: bool, msg: *const u8, len: usize);
    fn nd_cover(msg: *const u8, len: usize);
    fn nd_may_panic(c: bool);
    fn nd_fork(v: u64) -> u64;
    fn nd_fork_bool(v: bool) -> bool;
    fn nd_out_u64(v: u64);
    fn nd_opaque(size: u64) -> *mut u8;
    fn nd_done() -> !;
    fn nd_fail_unmodelled(msg: *const u8, len: usize);
}

pub fn u8() -> u8 { unsafe { nd_u8() } }
pub fn u16() -> u16 { unsafe { nd_u16() } }
pub fn u32() -> u32 { unsafe { nd_u32() } }
pub fn i32() -> i32 { unsafe { nd_u32() as i32 } }
pub fn u64() -> u64 { unsafe { nd_u64() } }
pub fn bool() -> bool { unsafe { nd_bool() } }
/// any of the 2^32 bit patterns
pub fn f32() -> f32 { unsafe { nd_f32() } }
/// a finite value with lo <= v <= hi
pub fn range_f32(lo: f32, hi: f32) -> f32 { unsafe { nd_unit(lo, hi) } }
/// 0.0 <= v <= 1.0
pub fn unit() -> f32 { unsafe { nd_unit(0.0, 1.0) } }
pub fn assume(c: bool) { unsafe { nd_assume(c) } }
#[inline(always)]
pub fn check(c: bool, msg: &'static str) { unsafe { nd_check(c, msg.as_ptr(), msg.len()) } }
#[inline(always)]
pub fn cover(msg: &'static str) { unsafe { nd_cover(msg.as_ptr(), msg.len()) } }
/// from here on a panic is an accepted outcome
pub fn may_panic(c: bool) { unsafe { nd_may_panic(c) } }
/// case-split (solver-driven) on the value: afterwards it is concrete on each path
pub fn fork(v: u64) -> u64 { unsafe { nd_fork(v) } }
pub fn fork32(v: u32) -> u32 { unsafe { nd_fork(v as u64) as u32 } }
pub fn fork_bool(v: bool) -> bool { unsafe { nd_fork_bool(v) } }
pub fn out(v: u64) { unsafe { nd_out_u64(v) } }
pub fn opaque(size: u64) -> *mut u8 { unsafe { nd_opaque(size) } }
/// the path ends here, normally
pub fn done() -> ! { unsafe { nd_done() } }
#[inline(always)]
pub fn unmodelled(msg: &'static str) -> ! {
    unsafe { nd_fail_unmodelled(msg.as_ptr(), msg.len()) }
    loop {}
}

/// lo <= v <= hi, left symbolic
pub fn range(lo: u32, hi: u32) -> u32 {
    let v = u32();
    assume(v >= lo && v <= hi);
    v
}
/// lo <= v <= hi, case-split
pub fn pick(lo: u32, hi: u32) -> u32 {
    fork32(range(lo, hi))
}
