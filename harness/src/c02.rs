//! C02: layout and sample format do not change the result
use crate::api::*;
use crate::harnesses;
use crate::util::*;

/// interleaved against planar, in two calls with different planes each
fn layout<T: Samp>(ch: u64, rate: u64, m: u64, f1: u64, f2: u64) {
    let chn = ch as usize;
    let (f1, f2) = (f1 as usize, f2 as usize);
    let n = f1 + f2;
    let mut d = [T::default(); MAXS];
    fill(&mut d[..n * chn]);
    let mut p = [T::default(); MAXS];
    for i in 0..n {
        for c in 0..chn {
            p[c * n + i] = d[i * chn + c];
        }
    }
    let mut a = analyzer(ch, rate, m);
    let mut b = analyzer(ch, rate, m);
    let _ = T::add(&mut a, &d[..f1 * chn]);
    let _ = T::add(&mut a, &d[f1 * chn..n * chn]);
    let mut s1: [&[T]; 64] = [&[]; 64];
    let mut s2: [&[T]; 64] = [&[]; 64];
    for c in 0..chn {
        s1[c] = &p[c * n..c * n + f1];
        s2[c] = &p[c * n + f1..c * n + n];
    }
    let r1 = T::add_planar(&mut b, &s1[..chn]);
    let r2 = T::add_planar(&mut b, &s2[..chn]);
    check(r1.is_ok() && r2.is_ok(), 200);
    same_all(&a, &b, true, 210);
}

/// samples of type T against the f64 samples of the same full-scale value
fn format<T: Samp>(ch: u64, rate: u64, m: u64, f1: u64, f2: u64) {
    let chn = ch as usize;
    let (f1, f2) = (f1 as usize, f2 as usize);
    let n = (f1 + f2) * chn;
    let mut d = [T::default(); MAXS];
    fill(&mut d[..n]);
    let mut e = [0.0f64; MAXS];
    for i in 0..n {
        e[i] = d[i].to_f64();
    }
    let mut a = analyzer(ch, rate, m);
    let mut b = analyzer(ch, rate, m);
    let _ = T::add(&mut a, &d[..f1 * chn]);
    let _ = T::add(&mut a, &d[f1 * chn..n]);
    let _ = b.add_frames_f64(&e[..f1 * chn]);
    let _ = b.add_frames_f64(&e[f1 * chn..n]);
    same_all(&a, &b, true, 230);
}

/// a long call (p frames of audio and n arbitrary ones): planes against interleaved against f64
fn long<T: Samp>(ch: u64, rate: u64, m: u64, p: u64, n: u64) {
    let chn = ch as usize;
    let d = audio::<T>(chn, 3, p as usize, n as usize);
    let len = (p + n) as usize;
    let mut a = analyzer(ch, rate, m);
    let mut b = analyzer(ch, rate, m);
    check(T::add(&mut a, &d).is_ok(), 250);
    if choice(2) == 0 {
        let mut q = vec![T::default(); len * chn];
        let mut s: [&[T]; 64] = [&[]; 64];
        for i in 0..len {
            for c in 0..chn {
                q[c * len + i] = d[i * chn + c];
            }
        }
        for c in 0..chn {
            s[c] = &q[c * len..(c + 1) * len];
        }
        check(T::add_planar(&mut b, &s[..chn]).is_ok(), 251);
    } else {
        let mut f = vec![0.0f64; len * chn];
        for i in 0..f.len() {
            f[i] = d[i].to_f64();
        }
        check(b.add_frames_f64(&f).is_ok(), 252);
    }
    same_all(&a, &b, true, 260);
}

harnesses! {
    c02_long_i16(ch, rate, m, p, n) long::<i16>(ch, rate, m, p, n);
    c02_long_i32(ch, rate, m, p, n) long::<i32>(ch, rate, m, p, n);
    c02_long_f32(ch, rate, m, p, n) long::<f32>(ch, rate, m, p, n);
    c02_long_f64(ch, rate, m, p, n) long::<f64>(ch, rate, m, p, n);
    c02_layout_i16(ch, rate, m, f1, f2) layout::<i16>(ch, rate, m, f1, f2);
    c02_layout_i32(ch, rate, m, f1, f2) layout::<i32>(ch, rate, m, f1, f2);
    c02_layout_f32(ch, rate, m, f1, f2) layout::<f32>(ch, rate, m, f1, f2);
    c02_layout_f64(ch, rate, m, f1, f2) layout::<f64>(ch, rate, m, f1, f2);
    c02_format_i16(ch, rate, m, f1, f2) format::<i16>(ch, rate, m, f1, f2);
    c02_format_i32(ch, rate, m, f1, f2) format::<i32>(ch, rate, m, f1, f2);
    c02_format_f32(ch, rate, m, f1, f2) format::<f32>(ch, rate, m, f1, f2);
}
