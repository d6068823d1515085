//! Intrinsics of the checker. The symbolic executor interprets them; the native replay binary
//! implements them from a recorded input stream.
extern "C" {
    fn __vx_sym_u32(lo: u32, hi: u32) -> u32;
    fn __vx_sym_f32() -> f32;
    fn __vx_sym_f32_any() -> f32;
    fn __vx_choose(n: u32) -> u32;
    fn __vx_assume(c: bool);
    fn __vx_check(c: bool, p: *const u8, n: usize);
    fn __vx_check_feq(a: f32, b: f32, p: *const u8, n: usize);
    fn __vx_check_bits(a: f32, b: f32, p: *const u8, n: usize);
    fn __vx_check_finite(a: f32, p: *const u8, n: usize);
    fn __vx_expect_panic(c: bool);
    fn __vx_may_panic(c: bool);
    fn __vx_reach(p: *const u8, n: usize);
    fn __vx_vjp(ys: *const f32, gys: *const f32, ny: usize, xs: *const f32, out: *mut f32, nx: usize);
    fn __vx_live_heap() -> u64;
    fn __vx_fill_sym(p: *mut f32, n: usize);
    fn __vx_strict_fp(c: bool);
    fn __vx_job() -> u32;
    fn __vx_tier() -> u32;
    fn __vx_spawn(f: extern "C" fn(*const ()), ctx: *const ()) -> u32;
    fn __vx_switch(t: u32);
    fn __vx_stack() -> u64;
    fn __vx_on_panic(f: extern "C" fn(*const ()), ctx: *const ());
}

/// A symbolic u32 in [lo, hi].
pub fn u32_in(lo: u32, hi: u32) -> u32 {
    unsafe { __vx_sym_u32(lo, hi) }
}
/// A symbolic finite f32.
pub fn f32_finite() -> f32 {
    unsafe { __vx_sym_f32() }
}
/// A symbolic f32 of any bit pattern.
pub fn f32_any() -> f32 {
    unsafe { __vx_sym_f32_any() }
}
/// Case split: one path per value 0..n.
pub fn choose(n: u32) -> u32 {
    unsafe { __vx_choose(n) }
}
pub fn pick<T: Copy>(v: &[T]) -> T {
    v[choose(v.len() as u32) as usize]
}
pub fn assume(c: bool) {
    unsafe { __vx_assume(c) }
}
pub fn check(c: bool, label: &str) {
    unsafe { __vx_check(c, label.as_ptr(), label.len()) }
}
pub fn feq(a: f32, b: f32, label: &str) {
    unsafe { __vx_check_feq(a, b, label.as_ptr(), label.len()) }
}
pub fn bits(a: f32, b: f32, label: &str) {
    unsafe { __vx_check_bits(a, b, label.as_ptr(), label.len()) }
}
pub fn finite(a: f32, label: &str) {
    unsafe { __vx_check_finite(a, label.as_ptr(), label.len()) }
}
/// From here on a panic is the required outcome.
pub fn expect_panic(c: bool) {
    unsafe { __vx_expect_panic(c) }
}
/// From here on a panic is acceptable.
pub fn may_panic(c: bool) {
    unsafe { __vx_may_panic(c) }
}
pub fn reach(label: &str) {
    unsafe { __vx_reach(label.as_ptr(), label.len()) }
}
/// Vector-Jacobian product of the recorded computation ys(xs): out[j] = sum_i gys[i] * dys[i]/dxs[j].
pub fn vjp(ys: &[f32], gys: &[f32], xs: &[f32]) -> Vec<f32> {
    assert!(ys.len() == gys.len());
    let mut out = vec![0f32; xs.len()];
    unsafe { __vx_vjp(ys.as_ptr(), gys.as_ptr(), ys.len(), xs.as_ptr(), out.as_mut_ptr(), xs.len()) }
    out
}
pub fn live_heap() -> u64 {
    unsafe { __vx_live_heap() }
}
/// n symbolic finite floats.
pub fn floats(n: usize) -> Vec<f32> {
    let mut v = vec![0f32; n];
    unsafe { __vx_fill_sym(v.as_mut_ptr(), n) }
    v
}
pub fn strict_fp(c: bool) {
    unsafe { __vx_strict_fp(c) }
}
pub fn job() -> u32 {
    unsafe { __vx_job() }
}
/// 0 quick, 1 thorough.
pub fn tier() -> u32 {
    unsafe { __vx_tier() }
}
pub fn thorough() -> bool {
    tier() != 0
}
/// Runs f on *ctx if the path ends in an expected panic (before the process ends).
pub fn on_refusal<T>(f: extern "C" fn(*const ()), ctx: &T) {
    unsafe { __vx_on_panic(f, ctx as *const T as *const ()) }
}

/// A new thread, not yet running.  When f returns, thread 0 goes on.
pub fn spawn<T>(f: extern "C" fn(*const ()), ctx: *const T) -> u32 {
    unsafe { __vx_spawn(f, ctx as *const ()) }
}
/// Stops this thread here and lets thread t run.
pub fn switch(t: u32) {
    unsafe { __vx_switch(t) }
}
/// How much stack is in use (from some origin).
pub fn stack() -> u64 {
    unsafe { __vx_stack() }
}

macro_rules! harnesses {
    ($prop:literal; $( $name:literal : $jobs:expr => $f:path; )*) => {
        $(
            const _: () = {
                #[export_name = concat!("h_", $prop, "_", $name)]
                extern "C" fn h() {
                    $f($crate::vx::job())
                }
                #[export_name = concat!("n_h_", $prop, "_", $name)]
                extern "C" fn n() -> u32 {
                    $jobs
                }
            };
        )*
        pub const TABLE: &[(&str, fn(u32), fn() -> u32)] = &[
            $( (concat!("h_", $prop, "_", $name), $f, || $jobs), )*
        ];
    };
}
