//! Verification primitives.  In the bitcode the symbolic executor intercepts `vp_*`;
//! with feature `native` they replay a recorded input stream against the real code.
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn vp_sym(w: u32) -> u64;
        fn vp_range(lo: i64, hi: i64) -> i64;
        fn vp_dy(lo: i64, hi: i64, e: i32) -> f64;
        fn vp_assume(c: bool);
        fn vp_check(c: bool, p: *const u8, n: usize);
        fn vp_obs(x: u64);
        fn vp_obs_f(x: f64);
        fn vp_cover(i: u32);
        fn vp_conc(x: u64) -> u64;
        fn vp_panic_ok(b: bool);
    }
    #[inline(always)]
    pub fn sym(w: u32) -> u64 {
        unsafe { vp_sym(w) }
    }
    #[inline(always)]
    pub fn range(lo: i64, hi: i64) -> i64 {
        unsafe { vp_range(lo, hi) }
    }
    #[inline(always)]
    pub fn dy(lo: i64, hi: i64, e: i32) -> f64 {
        unsafe { vp_dy(lo, hi, e) }
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        unsafe { vp_assume(c) }
    }
    #[inline(always)]
    pub fn check(c: bool, id: &str) {
        unsafe { vp_check(c, id.as_ptr(), id.len()) }
    }
    #[inline(always)]
    pub fn obs(x: u64) {
        unsafe { vp_obs(x) }
    }
    #[inline(always)]
    pub fn obs_f(x: f64) {
        unsafe { vp_obs_f(x) }
    }
    #[inline(always)]
    pub fn cover(i: u32) {
        unsafe { vp_cover(i) }
    }
    #[inline(always)]
    pub fn conc(x: u64) -> u64 {
        unsafe { vp_conc(x) }
    }
    /// panics after this call are allowed behaviour (the path just ends)
    #[inline(always)]
    pub fn panic_ok(b: bool) {
        unsafe { vp_panic_ok(b) }
    }
}

#[cfg(feature = "native")]
mod imp {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct St {
        pub inputs: std::collections::VecDeque<u64>,
        pub obs: Vec<u64>,
        pub failed: Vec<String>,
        pub underflow: bool,
        pub panic_ok: bool,
    }
    thread_local! { pub static ST: RefCell<St> = RefCell::new(St::default()); }
    pub struct AssumeFailed;
    fn pop() -> u64 {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            match s.inputs.pop_front() {
                Some(x) => x,
                None => {
                    s.underflow = true;
                    0
                }
            }
        })
    }
    pub fn sym(_w: u32) -> u64 {
        pop()
    }
    pub fn range(_lo: i64, _hi: i64) -> i64 {
        pop() as i64
    }
    pub fn dy(_lo: i64, _hi: i64, _e: i32) -> f64 {
        f64::from_bits(pop())
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::resume_unwind(Box::new(AssumeFailed))
        }
    }
    pub fn check(c: bool, id: &str) {
        if !c {
            ST.with(|s| s.borrow_mut().failed.push(id.to_string()))
        }
    }
    pub fn obs(x: u64) {
        ST.with(|s| s.borrow_mut().obs.push(x))
    }
    pub fn obs_f(x: f64) {
        let b = if x.is_nan() { 0x7ff8000000000000 } else { x.to_bits() };
        obs(b)
    }
    pub fn cover(_i: u32) {}
    pub fn conc(x: u64) -> u64 {
        x
    }
    pub fn panic_ok(b: bool) {
        ST.with(|s| s.borrow_mut().panic_ok = b)
    }
}

pub use imp::*;

/// any IEEE bit pattern
#[inline(always)]
pub fn any_f64() -> f64 {
    f64::from_bits(sym(64))
}
/// any finite f64
#[inline(always)]
pub fn fin_f64() -> f64 {
    let f = any_f64();
    assume(f.is_finite());
    f
}
static mut UNIT: (i32, f64) = (0, 1.0);
/// choose the unit all lengths of this run are multiples of: 2^-60 or 2^40
pub fn mag() {
    unsafe { UNIT = [(-60, 1.0), (40, 1.0)][pick(0, 1)] }
}
/// the same, or 2^24 + 1, multiples of which single precision does not hold (for few symbols)
pub fn mag_odd() {
    unsafe { UNIT = [(-60, 1.0), (40, 1.0), (0, 16777217.0)][pick(0, 2)] }
}
/// x units
pub fn un(x: f64) -> f64 {
    let (e, m) = unsafe { UNIT };
    x * m * f64::from_bits(((1023 + e) as u64) << 52)
}
/// multiple of 2^e units
#[inline(always)]
pub fn dy(lo: i64, hi: i64, e: i32) -> f64 {
    let (u, m) = unsafe { UNIT };
    let x = imp::dy(lo, hi, e + u);
    if m != 1.0 { x * m } else { x }
}
/// integer number of units in lo..=hi
#[inline(always)]
pub fn fi(lo: i64, hi: i64) -> f64 {
    dy(lo, hi, 0)
}
#[inline(always)]
pub fn byte() -> u8 {
    sym(8) as u8
}
#[inline(always)]
pub fn us(lo: usize, hi: usize) -> usize {
    range(lo as i64, hi as i64) as usize
}
#[inline(always)]
pub fn bit() -> bool {
    sym(1) != 0
}
/// pick a concrete value in lo..=hi (forks)
#[inline(always)]
pub fn pick(lo: usize, hi: usize) -> usize {
    conc(us(lo, hi) as u64) as usize
}
/// Display -> u64 digest that is comparable between engine and native run
pub fn obs_bytes(b: &[u8]) {
    obs(b.len() as u64);
    for x in b {
        obs(*x as u64);
    }
}

#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $name:ident() $body:block)*) => {
        $(#[no_mangle] pub extern "C-unwind" fn $name() $body)*
        pub const TABLE: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($name), $name as extern "C-unwind" fn())),*];
    };
}
