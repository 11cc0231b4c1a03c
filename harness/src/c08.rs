//! C08: sample peak is the exact maximum absolute sample of its channel
use crate::api::*;
use crate::harnesses;
use crate::util::*;
use ebur128::Channel;

/// largest absolute value of channel c among frames [a, b), NaN ignored
fn top<T: Samp>(d: &[T], ch: usize, c: usize, a: usize, b: usize) -> f64 {
    let mut m = 0.0;
    for i in a..b {
        let v = d[i * ch + c].to_f64().abs();
        if v > m {
            m = v;
        }
    }
    m
}

/// f1 frames, f2 frames (in either layout) and an empty call; unused: which channel is unused (64: default map)
fn peaks<T: Samp>(ch: u64, rate: u64, m: u64, f1: u64, f2: u64, unused: u64) {
    let chn = ch as usize;
    let mut e = analyzer(ch, rate, m);
    if unused < ch {
        check(e.set_channel(unused as u32, Channel::Unused).is_ok(), 800);
    }
    let mut d = [T::default(); MAXS];
    let (n1, n2) = (f1 as usize, (f1 + f2) as usize);
    fill(&mut d[..n2 * chn]);
    check(T::add(&mut e, &d[..n1 * chn]).is_ok(), 801);
    let mut p1 = [0.0; 64];
    for c in 0..chn {
        p1[c] = r(e.sample_peak(c as u32));
        eq(p1[c], top(&d, chn, c, 0, n1), 802);
        eq(r(e.prev_sample_peak(c as u32)), p1[c], 803);
    }
    if choice(2) == 0 {
        check(T::add(&mut e, &d[n1 * chn..n2 * chn]).is_ok(), 804);
    } else {
        planar(&mut e, &d[n1 * chn..n2 * chn], chn);
    }
    if choice(2) == 1 {
        check(T::add(&mut e, &d[..0]).is_ok(), 805);
    }
    for c in 0..chn {
        let p = r(e.sample_peak(c as u32));
        eq(p, top(&d, chn, c, 0, n2), 806);
        if n2 > n1 {
            eq(r(e.prev_sample_peak(c as u32)), top(&d, chn, c, n1, n2), 807);
        }
        check(!(p < p1[c]), 808);
    }
    cover(809);
}

pub fn planar<T: Samp>(e: &mut ebur128::EbuR128, d: &[T], ch: usize) {
    let mut p = [[T::default(); 64]; 64];
    let n = d.len() / ch;
    let mut s: [&[T]; 64] = [&[]; 64];
    for c in 0..ch {
        for i in 0..n {
            p[c][i] = d[i * ch + c];
        }
    }
    for (s, p) in s.iter_mut().zip(p.iter()).take(ch) {
        *s = &p[..n];
    }
    check(T::add_planar(e, &s[..ch]).is_ok(), 820);
}

/// calls with different sample types
fn mixed(ch: u64, rate: u64, m: u64) {
    let chn = ch as usize;
    let mut e = analyzer(ch, rate, m);
    let mut a = [0i16; 16];
    let mut b = [0f32; 16];
    let mut c = [0i32; 16];
    fill(&mut a[..2 * chn]);
    fill(&mut b[..2 * chn]);
    fill(&mut c[..2 * chn]);
    check(e.add_frames_i16(&a[..2 * chn]).is_ok(), 830);
    check(e.add_frames_f32(&b[..2 * chn]).is_ok(), 831);
    check(e.add_frames_i32(&c[..2 * chn]).is_ok(), 832);
    for k in 0..chn {
        let (x, y, z) = (top(&a, chn, k, 0, 2), top(&b, chn, k, 0, 2), top(&c, chn, k, 0, 2));
        let mut m = x;
        if y > m {
            m = y;
        }
        if z > m {
            m = z;
        }
        eq(r(e.sample_peak(k as u32)), m, 833);
        eq(r(e.prev_sample_peak(k as u32)), z, 834);
    }
    cover(835);
}

/// more frames than a gating block, extreme positions
fn long(ch: u64, rate: u64, m: u64, p: u64, n: u64, q: u64) {
    let chn = ch as usize;
    let mut e = analyzer(ch, rate, m);
    let mut d = [0.0f32; MAXS];
    let len = signal(&mut d, chn, p as usize, n as usize, q as usize);
    check(e.add_frames_f32(&d[..len]).is_ok(), 840);
    for c in 0..chn {
        eq(r(e.sample_peak(c as u32)), top(&d, chn, c, 0, len / chn), 841);
        eq(r(e.prev_sample_peak(c as u32)), top(&d, chn, c, 0, len / chn), 842);
    }
    cover(843);
}

harnesses! {
    c08_peaks_f64(ch, rate, m, f1, f2, unused) peaks::<f64>(ch, rate, m, f1, f2, unused);
    c08_peaks_f32(ch, rate, m, f1, f2, unused) peaks::<f32>(ch, rate, m, f1, f2, unused);
    c08_peaks_i16(ch, rate, m, f1, f2, unused) peaks::<i16>(ch, rate, m, f1, f2, unused);
    c08_peaks_i32(ch, rate, m, f1, f2, unused) peaks::<i32>(ch, rate, m, f1, f2, unused);
    c08_mixed(ch, rate, m) mixed(ch, rate, m);
    c08_long(ch, rate, m, p, n, q) long(ch, rate, m, p, n, q);
}
