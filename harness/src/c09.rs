//! C09: true peak is the maximum of the per-channel oversampled signal
use crate::api::*;
use crate::harnesses;
use crate::util::*;
use ebur128::Channel;

/// tap j of the 48-tap interpolator for an oversampling factor (Hann-windowed sinc)
fn tap(j: usize, factor: usize) -> f64 {
    let pi = std::f64::consts::PI;
    let w = 0.5 * (1.0 - (2.0 * pi * j as f64 / 48.0).cos());
    let m = (j as f64 - 24.0) * pi / factor as f64;
    let v = if j == 24 { w } else { w * m.sin() / m };
    v as f32 as f64
}

fn factor(rate: u64) -> usize {
    if rate < 96_000 {
        4
    } else if rate < 192_000 {
        2
    } else {
        1
    }
}

/// peak of the interpolated channel c over frames [a, b) of d
fn reference<T: Samp>(d: &[T], ch: usize, c: usize, a: usize, b: usize, rate: u64) -> f64 {
    let mut m: f64 = 0.0;
    for i in a..b {
        let v = d[i * ch + c].to_f64().abs();
        if v > m {
            m = v;
        }
    }
    let k = factor(rate);
    if k == 1 {
        return m;
    }
    let mut t = [0.0; 48];
    for j in 0..48 {
        t[j] = tap(j, k);
    }
    for i in a..b {
        for p in 0..k {
            let mut s = 0.0;
            for j in 0..48 / k {
                if j <= i {
                    s += t[j * k + p] * d[(i - j) * ch + c].to_f64() as f32 as f64;
                }
            }
            let s = s.abs();
            if s > m {
                m = s;
            }
        }
    }
    m
}

fn peak<T: Samp>(ch: u64, rate: u64, m: u64, f1: u64, f2: u64, unused: u64) {
    let chn = ch as usize;
    let mut e = analyzer(ch, rate, m);
    if unused < ch {
        check(e.set_channel(unused as u32, Channel::Unused).is_ok(), 900);
    }
    let mut d = [T::default(); MAXS];
    let (n1, n2) = (f1 as usize, (f1 + f2) as usize);
    fill(&mut d[..n2 * chn]);
    check(T::add(&mut e, &d[..n1 * chn]).is_ok(), 901);
    check(T::add(&mut e, &d[n1 * chn..n2 * chn]).is_ok(), 902);
    let k = choice(ch) as usize;
    eq(r(e.true_peak(k as u32)), reference(&d, chn, k, 0, n2, rate), 100910);
    cover(910);
    if n2 > n1 {
        eq(r(e.prev_true_peak(k as u32)), reference(&d, chn, k, n1, n2, rate), 100911);
    }
    // never less than the sample peak
    check(!(r(e.true_peak(k as u32)) < r(e.sample_peak(k as u32))), 912);
}

/// the peak of a channel is the one a mono analyzer of that channel gives
fn mono<T: Samp>(ch: u64, rate: u64, f1: u64) {
    let chn = ch as usize;
    let mut e = analyzer(ch, rate, 49);
    let mut a = analyzer(1, rate, 49);
    let mut d = [T::default(); MAXS];
    let n = f1 as usize;
    fill(&mut d[..n * chn]);
    let k = choice(ch) as usize;
    let mut o = [T::default(); 64];
    for i in 0..n {
        o[i] = d[i * chn + k];
    }
    check(T::add(&mut e, &d[..n * chn]).is_ok(), 920);
    check(T::add(&mut a, &o[..n]).is_ok(), 921);
    eq(r(e.true_peak(k as u32)), r(a.true_peak(0)), 922);
    eq(r(e.prev_true_peak(k as u32)), r(a.prev_true_peak(0)), 923);
    cover(924);
}

/// a long call (p frames of sparse pulses, n arbitrary frames) after one of q frames; the pulses are
/// powers of two and at least 25 frames apart, so that the concrete interpolator sums are exact
fn long<T: Samp>(ch: u64, rate: u64, q: u64, p: u64, n: u64) {
    let chn = ch as usize;
    let len = (q + p + n) as usize;
    let q = q as usize;
    let pre = q + p as usize;
    let mut d = vec![T::default(); len * chn];
    for i in 0..pre {
        for c in 0..chn {
            if (i + 3 * c) % 25 == 7 {
                d[i * chn + c] = T::level((i + c) & 1);
            }
        }
    }
    fill(&mut d[pre * chn..]);
    let mut e = analyzer(ch, rate, 49);
    check(T::add(&mut e, &d[..q * chn]).is_ok(), 930);
    check(T::add(&mut e, &d[q * chn..]).is_ok(), 930);
    let k = choice(ch) as usize;
    eq(r(e.true_peak(k as u32)), reference(&d, chn, k, 0, len, rate), 100931);
    eq(r(e.prev_true_peak(k as u32)), reference(&d, chn, k, q, len, rate), 100932);
    cover(931);
}

harnesses! {
    c09_long_f32(ch, rate, q, p, n) long::<f32>(ch, rate, q, p, n);
    c09_long_i16(ch, rate, q, p, n) long::<i16>(ch, rate, q, p, n);
    c09_peak_f32(ch, rate, m, f1, f2, unused) peak::<f32>(ch, rate, m, f1, f2, unused);
    c09_peak_f64(ch, rate, m, f1, f2, unused) peak::<f64>(ch, rate, m, f1, f2, unused);
    c09_peak_i16(ch, rate, m, f1, f2, unused) peak::<i16>(ch, rate, m, f1, f2, unused);
    c09_peak_i32(ch, rate, m, f1, f2, unused) peak::<i32>(ch, rate, m, f1, f2, unused);
    c09_mono_f32(ch, rate, f1) mono::<f32>(ch, rate, f1);
    c09_mono_f64(ch, rate, f1) mono::<f64>(ch, rate, f1);
}
