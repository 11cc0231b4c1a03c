//! Interface between the harnesses and whoever runs them: the symbolic executor (symbolic values,
//! solver-decided assertions) or the native replayer (concrete values from a counterexample).
extern "C" {
    /// arbitrary integer in [lo, hi]
    pub fn v_int(lo: u64, hi: u64) -> u64;
    /// 0..n-1, explored one by one
    pub fn v_choice(n: u64) -> u64;
    pub fn v_concrete(x: u64) -> u64;
    pub fn v_f64() -> f64;
    pub fn v_f32() -> f32;
    pub fn v_f64r(lo: f64, hi: f64) -> f64;
    pub fn v_f32r(lo: f32, hi: f32) -> f32;
    pub fn v_i16() -> i16;
    pub fn v_i32() -> i32;
    pub fn v_bool() -> bool;
    pub fn v_assume(c: bool);
    pub fn v_assert(c: bool, id: u64);
    pub fn v_eq_f64(a: f64, b: f64, id: u64);
    pub fn v_eq_u64(a: u64, b: u64, id: u64);
    pub fn v_cover(id: u64);
    pub fn v_out(x: f64);
    /// buffer of len_bytes bytes with arbitrary content
    pub fn v_buffer(len_bytes: u64, kind: u64) -> *const u8;
    /// floating-point control register
    pub fn v_mxcsr_get() -> u32;
    pub fn v_mxcsr_set(v: u32);
    pub fn v_native() -> u64;
}

pub fn int(lo: u64, hi: u64) -> u64 {
    unsafe { v_int(lo, hi) }
}
pub fn choice(n: u64) -> u64 {
    unsafe { v_choice(n) }
}
/// fork over the values of x
pub fn conc(x: u64) -> u64 {
    unsafe { v_concrete(x) }
}
pub fn f() -> f64 {
    unsafe { v_f64() }
}
pub fn f32v() -> f32 {
    unsafe { v_f32() }
}
pub fn fr(lo: f64, hi: f64) -> f64 {
    unsafe { v_f64r(lo, hi) }
}
pub fn f32r(lo: f32, hi: f32) -> f32 {
    unsafe { v_f32r(lo, hi) }
}
pub fn assume(c: bool) {
    unsafe { v_assume(c) }
}
pub fn check(c: bool, id: u64) {
    unsafe { v_assert(c, id) }
}
pub fn eq(a: f64, b: f64, id: u64) {
    unsafe { v_eq_f64(a, b, id) }
}
pub fn equ(a: u64, b: u64, id: u64) {
    unsafe { v_eq_u64(a, b, id) }
}
pub fn cover(id: u64) {
    unsafe { v_cover(id) }
}
pub fn out(x: f64) {
    unsafe { v_out(x) }
}

/// full-scale sample types a harness can draw arbitrary values of
pub trait Samp: Copy + Default + 'static {
    fn any() -> Self;
    fn to_f64(self) -> f64;
    /// the i-th sample of a fixed audible signal
    fn level(i: usize) -> Self;
    fn add(e: &mut ebur128::EbuR128, d: &[Self]) -> Result<(), ebur128::Error>;
    fn add_planar(e: &mut ebur128::EbuR128, d: &[&[Self]]) -> Result<(), ebur128::Error>;
    fn seed(e: &mut ebur128::EbuR128, d: &[Self]) -> Result<(), ebur128::Error>;
    fn seed_planar(e: &mut ebur128::EbuR128, d: &[&[Self]]) -> Result<(), ebur128::Error>;
}

macro_rules! samp {
    ($t:ty, $any:expr, $to:expr, $from:expr, $a:ident, $ap:ident, $s:ident, $sp:ident) => {
        impl Samp for $t {
            #[inline]
            fn any() -> Self {
                $any
            }
            #[inline]
            fn to_f64(self) -> f64 {
                $to(self)
            }
            #[inline]
            fn level(i: usize) -> Self {
                $from(((i * i + 7 * i) % 43) as f64 / 64.0 - 0.25)
            }
            #[inline]
            fn add(e: &mut ebur128::EbuR128, d: &[Self]) -> Result<(), ebur128::Error> {
                e.$a(d)
            }
            #[inline]
            fn add_planar(e: &mut ebur128::EbuR128, d: &[&[Self]]) -> Result<(), ebur128::Error> {
                e.$ap(d)
            }
            #[inline]
            fn seed(e: &mut ebur128::EbuR128, d: &[Self]) -> Result<(), ebur128::Error> {
                e.$s(d)
            }
            #[inline]
            fn seed_planar(e: &mut ebur128::EbuR128, d: &[&[Self]]) -> Result<(), ebur128::Error> {
                e.$sp(d)
            }
        }
    };
}
samp!(f64, f(), |x| x, |v: f64| v, add_frames_f64, add_frames_planar_f64, seed_frames_f64, seed_frames_planar_f64);
samp!(f32, f32v(), |x| x as f64, |v: f64| v as f32, add_frames_f32, add_frames_planar_f32, seed_frames_f32, seed_frames_planar_f32);
samp!(i16, unsafe { v_i16() }, |x| x as f64 / 32768.0, |v: f64| (v * 32768.0) as i16, add_frames_i16, add_frames_planar_i16, seed_frames_i16, seed_frames_planar_i16);
samp!(i32, unsafe { v_i32() }, |x| x as f64 / 2147483648.0, |v: f64| (v * 2147483648.0) as i32, add_frames_i32, add_frames_planar_i32, seed_frames_i32, seed_frames_planar_i32);
