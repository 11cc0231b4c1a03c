//! C20: the caller's floating-point control state survives every call
use crate::api::*;
use crate::harnesses;
use crate::util::*;
use ebur128::capi::*;
use ebur128::{Channel, EbuR128};
use std::os::raw::c_ulong;

/// control bits of MXCSR: everything except the sticky exception flags
const CONTROL: u32 = 0xffc0;

fn keep(before: u32, id: u64) {
    let now = unsafe { v_mxcsr_get() };
    check(now & CONTROL == before & CONTROL, id);
}

/// runs f under an arbitrary control word
fn under(id: u64, f: impl FnOnce()) {
    let saved = unsafe { v_mxcsr_get() };
    let word = int(0, 0xffff) as u32;
    // natively an unmasked exception would end the process before anything can be compared
    let word = if unsafe { v_native() } != 0 { word | 0x1f80 } else { word };
    unsafe { v_mxcsr_set(word) };
    f();
    keep(word, id);
    unsafe { v_mxcsr_set(saved) };
    cover(id);
}

/// n frames of audio in every layout, well-formed and not, then every query
fn audio<T: Samp>(ch: u64, rate: u64, m: u64, n: u64, arbitrary: u64) {
    let c = ch as usize;
    let n = n as usize;
    let mut e = analyzer(ch, rate, m);
    let mut d = [T::default(); 512];
    fill(&mut d[..arbitrary as usize * c]);
    let pl: [&[T]; 9] = [&d[..n], &d[..n], &d[..n], &d[..n], &d[..n], &d[..n], &d[..n], &d[..n], &d[..n]];
    let short: [&[T]; 2] = [&d[..n], &d[..n - 1]];
    // whatever an earlier call under another control word left in the analyzer
    let what = choice(7);
    if what < 6 && choice(2) == 1 {
        let z = [T::default(); 8];
        let pz: [&[T]; 8] = [&z[..1]; 8];
        check(T::add(&mut e, &z[..c]).is_ok() && T::add_planar(&mut e, &pz[..c]).is_ok(), 2020);
        check(T::seed(&mut e, &z[..c]).is_ok() && T::seed_planar(&mut e, &pz[..c]).is_ok(), 2021);
    }
    match what {
        0 => under(2000, || check(T::add(&mut e, &d[..n * c]).is_ok(), 2001)),
        1 => under(2002, || check(T::add_planar(&mut e, &pl[..c]).is_ok(), 2003)),
        2 => under(2004, || check(T::seed(&mut e, &d[..n * c]).is_ok(), 2005)),
        3 => under(2006, || check(T::seed_planar(&mut e, &pl[..c]).is_ok(), 2007)),
        4 => under(2008, || check(T::add(&mut e, &[]).is_ok() && T::seed(&mut e, &[]).is_ok(), 2009)),
        5 => under(2010, || {
            check(T::add_planar(&mut e, &pl[..c + 1]).is_err(), 2011);
            check(T::seed_planar(&mut e, &pl[..c + 1]).is_err(), 2012);
            check(T::add_planar(&mut e, &[]).is_err(), 2013);
            if c == 2 {
                check(T::add_planar(&mut e, &short).is_err(), 2014);
                check(T::seed_planar(&mut e, &short).is_err(), 2015);
                check(T::add(&mut e, &d[..2 * n - 1]).is_err(), 2016);
                check(T::seed(&mut e, &d[..2 * n - 1]).is_err(), 2017);
            }
        }),
        _ => {
            check(T::add(&mut e, &d[..n * c]).is_ok(), 2018);
            under(2019, || {
                for k in 0..NQ {
                    let _ = query(&e, k, 0);
                    let _ = query(&e, k, 64);
                }
                let _ = r(e.loudness_window(200));
                let _ = r(EbuR128::loudness_global_multiple([&e, &e].into_iter()));
                let _ = r(EbuR128::loudness_range_multiple([&e, &e].into_iter()));
            });
        }
    }
}

/// everything that is not audio
fn control(ch: u64, rate: u64, m: u64) {
    let mut e = analyzer(ch, rate, m);
    let mut d = [0.25; 64];
    fill(&mut d[..1]);
    let n = 9 / ch as usize * ch as usize;
    check(e.add_frames_f64(&d[..n]).is_ok(), 2050);
    match choice(8) {
        0 => under(2051, || e.reset()),
        1 => under(2052, || check(e.set_max_window(5000).is_ok(), 2053)),
        2 => under(2054, || check(e.set_max_history(6000).is_ok(), 2055)),
        3 => under(2056, || check(e.change_parameters(ch as u32, rate as u32 + 1000).is_ok(), 2057)),
        4 => under(2058, || check(e.change_parameters(ch as u32 + 1, rate as u32).is_ok(), 2059)),
        5 => under(2060, || {
            check(e.change_parameters(0, rate as u32).is_err(), 2061);
            check(e.change_parameters(ch as u32, 1).is_err(), 2062);
            check(e.set_channel(ch as u32, Channel::Left).is_err(), 2063);
            check(e.set_channel(0, Channel::Left).is_ok(), 2064);
            check(EbuR128::new(0, 48000, mode(1)).is_err(), 2065);
        }),
        6 => under(2067, || check(EbuR128::new(ch as u32, rate as u32, mode(m)).is_ok(), 2068)),
        _ => under(2069, || drop(e)),
    }
}

/// the C functions
fn capi(ch: u64, rate: u64, m: u64, n: u64, arbitrary: u64) {
    let c = ch as usize;
    let (n, a) = (n as usize, arbitrary as usize);
    let mut d = [0.25f64; 512];
    let (mut x, mut y, mut z) = ([0.5f32; 512], [77i16; 512], [-7i32; 512]);
    fill(&mut d[n * c - a..n * c]);
    fill(&mut x[n * c - a..n * c]);
    fill(&mut y[n * c - a..n * c]);
    fill(&mut z[n * c - a..n * c]);
    unsafe {
        let mut s = ebur128_init(ch as u32, rate as c_ulong, m as i32);
        check(!s.is_null() && ebur128_add_frames_double(s, d.as_ptr(), n) == 0, 2080);
        match choice(9) {
            0 => under(2081, || check(ebur128_add_frames_double(s, d.as_ptr(), n) == 0, 2082)),
            1 => under(2083, || check(ebur128_add_frames_float(s, x.as_ptr(), n) == 0, 2084)),
            2 => under(2085, || check(ebur128_add_frames_short(s, y.as_ptr(), n) == 0, 2086)),
            3 => under(2087, || check(ebur128_add_frames_int(s, z.as_ptr(), n) == 0, 2088)),
            4 => under(2089, || {
                let t = ebur128_init(ch as u32, rate as c_ulong, m as i32);
                check(!t.is_null(), 2090);
                let t = ebur128_init(0, rate as c_ulong, m as i32);
                check(t.is_null(), 2091);
            }),
            5 => under(2092, || {
                let mut o = 0.0;
                let _ = ebur128_loudness_global(s, &mut o);
                let _ = ebur128_loudness_momentary(s, &mut o);
                let _ = ebur128_loudness_shortterm(s, &mut o);
                let _ = ebur128_loudness_range(s, &mut o);
                let _ = ebur128_loudness_window(s, 100, &mut o);
                let _ = ebur128_relative_threshold(s, &mut o);
                let _ = ebur128_sample_peak(s, 0, &mut o);
                let _ = ebur128_prev_sample_peak(s, 0, &mut o);
                let _ = ebur128_true_peak(s, 0, &mut o);
                let _ = ebur128_prev_true_peak(s, 64, &mut o);
            }),
            6 => under(2093, || {
                let _ = ebur128_set_channel(s, 0, 3);
                let _ = ebur128_set_channel(s, 64, 3);
                let _ = ebur128_set_max_window(s, 4500);
                let _ = ebur128_set_max_history(s, 9000);
            }),
            7 => under(2094, || {
                let _ = ebur128_change_parameters(s, ch as u32 + 1, rate as c_ulong);
                let _ = ebur128_change_parameters(s, 0, rate as c_ulong);
            }),
            _ => under(2095, || {
                let mut o = 0.0;
                let mut l = [s, s];
                let _ = ebur128_loudness_global_multiple(l.as_mut_ptr(), 2, &mut o);
                let _ = ebur128_loudness_range_multiple(l.as_mut_ptr(), 2, &mut o);
                ebur128_destroy(&mut s);
                check(s.is_null(), 2096);
            }),
        }
    }
}

harnesses! {
    c20_capi(ch, rate, m, n, a) capi(ch, rate, m, n, a);
    c20_audio_f64(ch, rate, m, n, a) audio::<f64>(ch, rate, m, n, a);
    c20_audio_f32(ch, rate, m, n, a) audio::<f32>(ch, rate, m, n, a);
    c20_audio_i16(ch, rate, m, n, a) audio::<i16>(ch, rate, m, n, a);
    c20_audio_i32(ch, rate, m, n, a) audio::<i32>(ch, rate, m, n, a);
    c20_control(ch, rate, m) control(ch, rate, m);
}
