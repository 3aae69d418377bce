//! Interface between harnesses and the checking environment. Under symbolic execution these calls are
//! interpreted by the engine; in the native replay binary they read a recorded case.
mod ffi {
    extern "C-unwind" {
        pub fn symx_u64_below(n: u64) -> u64;
        pub fn symx_u64() -> u64;
        pub fn symx_bool() -> bool;
        pub fn symx_real(lo: f64, hi: f64, flags: u64) -> f64;
        pub fn symx_count(hi: u64) -> u64;
        pub fn symx_assume(b: bool);
        pub fn symx_assert(b: bool, p: *const u8, n: usize);
        pub fn symx_feq(a: f64, b: f64) -> bool;
        pub fn symx_fle(a: f64, b: f64) -> bool;
        pub fn symx_isfinite(a: f64) -> bool;
        pub fn symx_stream(seed: u64, idx: u64) -> u64;
        pub fn symx_panic_policy(p: u64);
        pub fn symx_reach(p: *const u8, n: usize);
        pub fn symx_obs_f64(x: f64);
        pub fn symx_obs_u64(x: u64);
        pub fn symx_max_draws(n: u64);
        pub fn symx_param(i: u64) -> u64;
        pub fn symx_concretize(v: u64) -> u64;
        pub fn symx_uf(kind: u64, a: f64, b: f64, x: f64) -> f64;
        pub fn symx_cut();
        pub fn symx_finish();
        pub fn symx_sched_mode(n: u64);
        pub fn symx_no_log_zero();
        pub fn symx_rounding(on: bool);
    }
}
use ffi::*;

/// an arbitrary value below `n`, kept symbolic
pub fn below(n: usize) -> usize {
    unsafe { symx_u64_below(n as u64) as usize }
}
/// an arbitrary value below `n`; one path per value
pub fn choose(n: usize) -> usize {
    unsafe { symx_concretize(symx_u64_below(n as u64)) as usize }
}
pub fn concretize(v: usize) -> usize {
    unsafe { symx_concretize(v as u64) as usize }
}
pub fn any_u64() -> u64 {
    unsafe { symx_u64() }
}
pub fn flag() -> bool {
    unsafe { symx_bool() }
}
/// like `flag`, but one path per value
pub fn fork() -> bool {
    choose(2) == 1
}
pub fn real(lo: f64, hi: f64) -> f64 {
    unsafe { symx_real(lo, hi, 0) }
}
/// strictly inside (lo, hi)
pub fn real_in(lo: f64, hi: f64) -> f64 {
    unsafe { symx_real(lo, hi, 3) }
}
pub fn any_real() -> f64 {
    unsafe { symx_real(f64::NEG_INFINITY, f64::INFINITY, 0) }
}
pub fn positive() -> f64 {
    unsafe { symx_real(0.0, f64::INFINITY, 1) }
}
pub fn nonneg() -> f64 {
    unsafe { symx_real(0.0, f64::INFINITY, 0) }
}
/// an integer 0..=hi that the code uses as a number (it is converted to floating point)
pub fn count(hi: u64) -> usize {
    unsafe { symx_count(hi) as usize }
}
pub fn assume(b: bool) {
    unsafe { symx_assume(b) }
}
pub fn check(b: bool, label: &str) {
    unsafe { symx_assert(b, label.as_ptr(), label.len()) }
}
/// equality of reals (native replay: up to rounding)
pub fn feq(a: f64, b: f64) -> bool {
    unsafe { symx_feq(a, b) }
}
pub fn fle(a: f64, b: f64) -> bool {
    unsafe { symx_fle(a, b) }
}
pub fn finite(a: f64) -> bool {
    unsafe { symx_isfinite(a) }
}
/// value of the k-th 64-bit draw of the generator seeded with `seed`
pub fn draw(seed: u64, idx: u64) -> u64 {
    unsafe { symx_stream(seed, idx) }
}
/// from now on a panic is the required outcome: a path that ends without one is a violation
pub fn must_panic() {
    unsafe { symx_panic_policy(1) }
}
pub fn may_panic() {
    unsafe { symx_panic_policy(2) }
}
pub fn no_panic() {
    unsafe { symx_panic_policy(0) }
}
pub fn reach(label: &str) {
    unsafe { symx_reach(label.as_ptr(), label.len()) }
}
pub fn obs(x: f64) {
    unsafe { symx_obs_f64(x) }
}
pub fn obsu(x: usize) {
    unsafe { symx_obs_u64(x as u64) }
}
pub fn max_draws(n: u64) {
    unsafe { symx_max_draws(n) }
}
pub fn param(i: u64) -> usize {
    unsafe { symx_param(i) as usize }
}
pub fn lgamma(x: f64) -> f64 {
    unsafe { symx_uf(0, 0.0, 0.0, x) }
}
pub fn chi2_cdf(df: f64, x: f64) -> f64 {
    unsafe { symx_uf(1, 0.0, df, x) }
}
pub fn f_cdf(d1: f64, d2: f64, x: f64) -> f64 {
    unsafe { symx_uf(2, d1, d2, x) }
}
/// standard normal distribution function
pub fn normal_cdf(x: f64) -> f64 {
    unsafe { symx_uf(3, 0.0, 0.0, x) }
}
pub fn cut() {
    unsafe { symx_cut() }
}
pub fn finish() {
    unsafe { symx_finish() }
}
/// leave out executions that take the logarithm of exactly zero (a uniform draw of exactly 0)
pub fn no_log_zero() {
    unsafe { symx_no_log_zero() }
}
/// whether the results of floating-point operations are rounded from here on
pub fn rounding(on: bool) {
    unsafe { symx_rounding(on) }
}
/// the next `n` fork-join pairs run in an arbitrary order (the others in program order)
pub fn schedules(n: u64) {
    unsafe { symx_sched_mode(n) }
}
struct One(u64);
impl rand::RngCore for One {
    fn next_u32(&mut self) -> u32 {
        self.0 as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0
    }
    fn fill_bytes(&mut self, _: &mut [u8]) {}
    fn try_fill_bytes(&mut self, _: &mut [u8]) -> Result<(), rand::Error> {
        Ok(())
    }
}
/// the U in [0,1] that `gen_range(0.0..=1.0)` makes of draw `d` (52-bit grid as in rand 0.8)
pub fn unit_incl(d: u64) -> f64 {
    use rand::distributions::uniform::{SampleUniform, UniformSampler};
    <f64 as SampleUniform>::Sampler::sample_single_inclusive(0.0, 1.0, &mut One(d))
}
/// the U in [0,1) that `gen()` makes of draw `d`
pub fn unit_excl(d: u64) -> f64 {
    use rand::Rng;
    One(d).gen()
}
