//! Safe wrappers of the symbolic-input interface (engine/libc.h symbolically, sym.c natively).
#![allow(dead_code)]
mod raw {
    extern "C" {
        pub fn sym_u64(n: *const u8, l: usize, lo: u64, hi: u64) -> u64;
        pub fn sym_i64(n: *const u8, l: usize, lo: i64, hi: i64) -> i64;
        pub fn sym_f64(n: *const u8, l: usize, lo: i64, hi: i64, sc: i32) -> f64;
        pub fn sym_f64_of(n: *const u8, l: usize, t: *const f64, k: usize) -> f64;
        pub fn sym_f64_any(n: *const u8, l: usize) -> f64;
        pub fn sym_assume(b: bool);
        pub fn sym_check(b: bool, n: *const u8, l: usize);
        pub fn sym_fail(n: *const u8, l: usize);
        pub fn sym_observe(n: *const u8, l: usize, v: u64);
        pub fn sym_observe_f64(n: *const u8, l: usize, v: f64);
        pub fn sym_conc(v: u64) -> u64;
        pub fn sym_conc_f64(v: f64) -> f64;
        pub fn sym_cover(n: *const u8, l: usize);
        pub fn sym_decide(b: bool) -> bool;
        pub fn sym_fault_write(k: i64);
        pub fn sym_fault_read(k: i64);
        pub fn sym_fiber_new(f: extern "C" fn(*mut u8), a: *mut u8) -> u64;
        pub fn sym_fiber_switch(k: u64);
    }
}
/// any integer in lo..=hi
pub fn u(n: &str, lo: u64, hi: u64) -> u64 { unsafe { raw::sym_u64(n.as_ptr(), n.len(), lo, hi) } }
pub fn us(n: &str, lo: usize, hi: usize) -> usize { u(n, lo as u64, hi as u64) as usize }
pub fn i(n: &str, lo: i64, hi: i64) -> i64 { unsafe { raw::sym_i64(n.as_ptr(), n.len(), lo, hi) } }
pub fn b(n: &str) -> bool { u(n, 0, 1) == 1 }
/// any f64 of the form k * 2^-sc with lo <= k <= hi
pub fn f(n: &str, lo: i64, hi: i64, sc: i32) -> f64 { unsafe { raw::sym_f64(n.as_ptr(), n.len(), lo, hi, sc) } }
pub fn f_of(n: &str, t: &[f64]) -> f64 { unsafe { raw::sym_f64_of(n.as_ptr(), n.len(), t.as_ptr(), t.len()) } }
/// any of the 2^64 bit patterns
pub fn f_any(n: &str) -> f64 { unsafe { raw::sym_f64_any(n.as_ptr(), n.len()) } }
pub fn assume(b: bool) { unsafe { raw::sym_assume(b) } }
pub fn check(b: bool, n: &str) { unsafe { raw::sym_check(b, n.as_ptr(), n.len()) } }
pub fn fail(n: &str) { unsafe { raw::sym_fail(n.as_ptr(), n.len()) } }
pub fn obs(n: &str, v: u64) { unsafe { raw::sym_observe(n.as_ptr(), n.len(), v) } }
pub fn obs_f(n: &str, v: f64) { unsafe { raw::sym_observe_f64(n.as_ptr(), n.len(), v) } }
/// split into the feasible values (all of them are explored)
pub fn conc(v: u64) -> u64 { unsafe { raw::sym_conc(v) } }
pub fn conc_us(v: usize) -> usize { conc(v as u64) as usize }
pub fn conc_f(v: f64) -> f64 { unsafe { raw::sym_conc_f64(v) } }
pub fn cover(n: &str) { unsafe { raw::sym_cover(n.as_ptr(), n.len()) } }
pub fn decide(b: bool) -> bool { unsafe { raw::sym_decide(b) } }
/// let the next k non-empty writes to files succeed and all later ones fail with ENOSPC; negative: no fault.
/// k + (kind << 32) lets only the next one misbehave: kind 1 fails, 2 handles half of the bytes, 3 is interrupted.
pub fn fault_write(k: i64) { unsafe { raw::sym_fault_write(k) } }
/// let the next k reads of files succeed and all later ones fail with EIO; negative: no fault; kinds as above
pub fn fault_read(k: i64) { unsafe { raw::sym_fault_read(k) } }
/// a thread that runs whenever it is switched to; its function must never return
pub fn fiber_new(f: extern "C" fn(*mut u8), a: *mut u8) -> usize { unsafe { raw::sym_fiber_new(f, a) as usize } }
pub fn fiber_switch(k: usize) { unsafe { raw::sym_fiber_switch(k as u64) } }
