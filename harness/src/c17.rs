//! C17: the C API is a faithful view of the Rust API
use crate::api::*;
use crate::harnesses;
use crate::util::*;
use core::ptr::null_mut;
use ebur128::capi::*;
use ebur128::{EbuR128, Error};
use std::os::raw::c_ulong;

const TOP: u64 = u64::MAX;
const U32: u64 = 0xffff_ffff;
const NO_CHANGE: u64 = 4;

/// struct ebur128_state of ebur128.h
#[repr(C)]
struct Public {
    mode: i32,
    channels: u32,
    samplerate: c_ulong,
    internal: *mut EbuR128,
}

struct Twin {
    s: *mut State,
    e: EbuR128,
}

fn public(s: *mut State) -> &'static Public {
    unsafe { &*(s as *const Public) }
}

impl Twin {
    fn new(ch: u64, rate: u64, m: u64) -> Twin {
        let s = unsafe { ebur128_init(ch as u32, rate as c_ulong, m as i32) };
        check(!s.is_null(), 1700);
        let t = Twin { s, e: analyzer(ch, rate, m) };
        t.fields(m, 1701);
        t
    }
    /// public fields and configuration are those of the twin
    fn fields(&self, m: u64, id: u64) {
        let p = public(self.s);
        let i = unsafe { &*p.internal };
        equ(p.mode as u32 as u64, m, id);
        equ(p.channels as u64, self.e.channels() as u64, id + 1);
        equ(p.samplerate as u64, self.e.rate() as u64, id + 2);
        equ(i.channels() as u64, self.e.channels() as u64, id + 3);
        equ(i.rate() as u64, self.e.rate() as u64, id + 4);
        equ(i.max_window() as u64, self.e.max_window() as u64, id + 5);
        equ(i.max_history() as u64, self.e.max_history() as u64, id + 6);
        check(i.mode() == self.e.mode(), id + 7);
        equ(i.channel_map().len() as u64, self.e.channel_map().len() as u64, id + 8);
        for (x, y) in i.channel_map().iter().zip(self.e.channel_map()) {
            check(*x == *y, id + 9);
        }
    }
    fn end(self) {
        let mut s = self.s;
        unsafe {
            ebur128_destroy(&mut s);
            check(s.is_null(), 1712);
            ebur128_destroy(&mut s);
            ebur128_destroy(null_mut());
        }
    }
}

const KEEP: f64 = -12345.5;

/// code and value of a C query against the Rust one
fn same(c: i32, out: f64, rust: Result<f64, Error>, id: u64) {
    equ(c as u32 as u64, code(&rust), id);
    match rust {
        Ok(v) => eq(out, v, id + 1),
        Err(_) => eq(out, KEEP, id + 2),
    }
}

fn queries(s: *mut State, e: &EbuR128, k: u64, id: u64) {
    let mut o = KEEP;
    unsafe {
        match k {
            0 => {
                same(ebur128_loudness_momentary(s, &mut o), o, e.loudness_momentary(), id);
                o = KEEP;
                same(ebur128_loudness_shortterm(s, &mut o), o, e.loudness_shortterm(), id + 3);
            }
            1 => {
                same(ebur128_loudness_global(s, &mut o), o, e.loudness_global(), id + 6);
                o = KEEP;
                same(ebur128_relative_threshold(s, &mut o), o, e.relative_threshold(), id + 9);
            }
            2 => same(ebur128_loudness_range(s, &mut o), o, e.loudness_range(), id + 12),
            3 => {
                let c = int(0, U32) as u32;
                let c = if choice(2) == 0 { conc(c as u64 % 2) as u32 } else { assume(c > 1); c };
                same(ebur128_sample_peak(s, c, &mut o), o, e.sample_peak(c), id + 15);
                o = KEEP;
                same(ebur128_prev_sample_peak(s, c, &mut o), o, e.prev_sample_peak(c), id + 18);
                o = KEEP;
                same(ebur128_true_peak(s, c, &mut o), o, e.true_peak(c), id + 21);
                o = KEEP;
                same(ebur128_prev_true_peak(s, c, &mut o), o, e.prev_true_peak(c), id + 24);
            }
            4 => {
                // windows: concrete ones, too long ones and those that do not fit 32 bits
                let w = match choice(4) {
                    0 => 100 * choice(6),
                    1 => int(4000, U32),
                    2 => int(U32 + 1, TOP),
                    _ => (1 << 32) + 100 * choice(5),
                };
                let c = ebur128_loudness_window(s, w as c_ulong, &mut o);
                if w > U32 {
                    equ(c as u32 as u64, 1, id + 27);
                    eq(o, KEEP, id + 28);
                } else {
                    same(c, o, e.loudness_window(w as u32), id + 29);
                }
            }
            5 => {
                let mut l = [s, s, s];
                let n = choice(4) as usize;
                let p = if n == 0 { null_mut() } else { l.as_mut_ptr() };
                let r = [e, e, e];
                same(ebur128_loudness_global_multiple(p, n, &mut o), o, EbuR128::loudness_global_multiple(r[..n].iter().copied()), id + 32);
                o = KEEP;
                same(ebur128_loudness_range_multiple(p, n, &mut o), o, EbuR128::loudness_range_multiple(r[..n].iter().copied()), id + 35);
            }
            _ => {
                let (mut a, mut b, mut c) = (9, 9, 9);
                ebur128_get_version(&mut a, &mut b, &mut c);
                check(a == 1 && b == 2 && c == 6, id + 38);
            }
        }
    }
    cover(id + k);
}

/// construction with every argument value
fn init(ch: u64, m: u64) {
    let (c, rate) = match choice(4) {
        0 => (ch, int(16, 2822400)),
        1 => (int(0, U32), int(2822401, TOP)),
        2 => (int(0, U32), int(0, 15)),
        _ => (if choice(2) == 0 { 0 } else { int(65, U32) }, int(0, TOP)),
    };
    let s = unsafe { ebur128_init(c as u32, rate as c_ulong, m as i32) };
    let ok = c >= 1 && c <= 64 && rate >= 16 && rate <= 2822400 && m & 1 == 1;
    check(s.is_null() != ok, 1720);
    if !s.is_null() {
        let p = public(s);
        equ(p.mode as u32 as u64, m, 1721);
        equ(p.channels as u64, c, 1722);
        equ(p.samplerate as u64, rate, 1723);
        let i = unsafe { &*p.internal };
        equ(i.channels() as u64, c, 1724);
        equ(i.rate() as u64, rate, 1725);
        equ(i.mode().bits() as u64, m, 1726);
        let mut s = s;
        unsafe { ebur128_destroy(&mut s) };
        check(s.is_null(), 1727);
        cover(1728);
    }
    cover(1729);
}

/// one setter call with arbitrary arguments
fn setter(t: &mut Twin, m: u64, reals: bool, kind: u64, id: u64) {
    unsafe {
        match kind {
            0 => {
                let c = match choice(2) {
                    0 => choice(t.e.channels() as u64),
                    _ => int(t.e.channels() as u64, U32),
                };
                let v = if choice(2) == 0 { choice(32) as i32 as i64 } else { int(32, U32) as u32 as i32 as i64 };
                let got = ebur128_set_channel(t.s, c as u32, v as i32);
                let want = if v >= 0 && v < 32 { code(&t.e.set_channel(c as u32, CHANNELS[v as usize])) } else { 3 };
                equ(got as u32 as u64, want, id);
            }
            1 => {
                let (c, rate) = match choice(5) {
                    0 => (t.e.channels() as u64, t.e.rate() as u64),
                    1 => (1 + choice(3), if reals { int(16, 2822400) } else { 44 }),
                    2 => (int(0, U32), int(2822401, TOP)),
                    3 => (int(0, U32), int(0, 15)),
                    _ => (if choice(2) == 0 { 0 } else { int(65, U32) }, int(0, TOP)),
                };
                let got = ebur128_change_parameters(t.s, c as u32, rate as c_ulong);
                let want = if c == t.e.channels() as u64 && rate == t.e.rate() as u64 {
                    NO_CHANGE
                } else if rate > U32 {
                    1
                } else {
                    code(&t.e.change_parameters(c as u32, rate as u32))
                };
                equ(got as u32 as u64, want, id + 1);
            }
            2 => {
                let w = match choice(4) {
                    0 => int(0, 400),
                    1 => if reals { int(0, 20000) } else { 500 },
                    2 => t.e.max_window() as u64,
                    _ => int(U32 + 1, TOP),
                };
                let got = ebur128_set_max_window(t.s, w as c_ulong);
                let old = t.e.max_window();
                let want = if w > U32 {
                    1
                } else {
                    let r = t.e.set_max_window(w as u32);
                    if r.is_ok() && t.e.max_window() == old { NO_CHANGE } else { code(&r) }
                };
                equ(got as u32 as u64, want, id + 2);
            }
            _ => {
                let h = match choice(4) {
                    0 => int(0, 5000),
                    1 => int(0, U32),
                    2 => t.e.max_history() as u64,
                    _ => int(U32 + 1, TOP),
                };
                let got = ebur128_set_max_history(t.s, h as c_ulong);
                let old = t.e.max_history();
                let want = if h > U32 {
                    1
                } else {
                    let r = t.e.set_max_history(h as u32);
                    if r.is_ok() && t.e.max_history() == old { NO_CHANGE } else { code(&r) }
                };
                equ(got as u32 as u64, want, id + 3);
            }
        }
    }
    t.fields(m, id + 4);
    cover(id + kind);
}

fn setters(ch: u64, rate: u64, m: u64, first: u64, second: u64) {
    let mut t = Twin::new(ch, rate, m);
    setter(&mut t, m, true, first, 1740);
    if second < 4 {
        setter(&mut t, m, second == 3, second, 1760);
    }
    t.end();
}

fn feed<T: Samp>(t: &mut Twin, add: unsafe extern "C" fn(*mut State, *const T, usize) -> i32, d: &[T], n: usize, c: usize, id: u64) {
    let a = unsafe { add(t.s, d.as_ptr(), n) };
    equ(a as u32 as u64, code(&T::add(&mut t.e, &d[..n * c])), id);
}

/// audio through the C API (with setters before and in between), then every query
fn audio<T: Samp>(add: unsafe extern "C" fn(*mut State, *const T, usize) -> i32, ch: u64, rate: u64, m: u64, p: u64, n: u64, q: u64) {
    let c = ch as usize;
    let mut t = Twin::new(ch, rate, m);
    let mut d = [T::default(); MAXS];
    let len = signal(&mut d, c, p as usize, n as usize, q as usize) / c;
    let cut = p as usize + 1;
    feed(&mut t, add, &d, cut, c, 1800);
    unsafe {
        equ(add(t.s, core::ptr::null(), 0) as u32 as u64, 0, 1801);
        // more frames than a C caller could have: the product with the channels does not fit
        if c > 1 {
            equ(add(t.s, d.as_ptr(), int(TOP / ch + 1, TOP) as usize) as u32 as u64, 1, 1802);
        }
    }
    feed(&mut t, add, &d[cut * c..], len - cut, c, 1803);
    t.fields(m, 1810);
    queries(t.s, &t.e, choice(7), 1830);
    t.fields(m, 1810);
    t.end();
}

harnesses! {
    c17_init(ch, m) init(ch, m);
    c17_setters(ch, rate, m, first, second) setters(ch, rate, m, first, second);
    c17_audio_i16(ch, rate, m, p, n, q) audio::<i16>(ebur128_add_frames_short, ch, rate, m, p, n, q);
    c17_audio_i32(ch, rate, m, p, n, q) audio::<i32>(ebur128_add_frames_int, ch, rate, m, p, n, q);
    c17_audio_f32(ch, rate, m, p, n, q) audio::<f32>(ebur128_add_frames_float, ch, rate, m, p, n, q);
    c17_audio_f64(ch, rate, m, p, n, q) audio::<f64>(ebur128_add_frames_double, ch, rate, m, p, n, q);
}
