//! C01: results do not depend on how the stream is split into calls
use crate::api::*;
use crate::harnesses;
use crate::util::*;
use ebur128::EbuR128;

/// one call against an arbitrary sequence of calls
fn split<T: Samp>(ch: u64, rate: u64, m: u64, frames: u64, splits: u64) {
    let chn = ch as usize;
    let n = frames as usize * chn;
    let mut d = [T::default(); MAXS];
    fill(&mut d[..n]);
    let mut a = analyzer(ch, rate, m);
    let mut b = analyzer(ch, rate, m);
    let _ = T::add(&mut a, &d[..n]);
    let mut pos = 0usize;
    for _ in 0..splits {
        let k = conc(int(0, frames - pos as u64)) as usize;
        let _ = T::add(&mut b, &d[pos * chn..(pos + k) * chn]);
        pos += k;
    }
    let _ = T::add(&mut b, &d[pos * chn..n]);
    same_all(&a, &b, false, 100);
}

/// the same after `silent` frames of silence (moves the ring position and the block phase), and with
/// `more` further frames fed to both in one call afterwards
fn split2<T: Samp>(ch: u64, rate: u64, m: u64, silent: u64, frames: u64, more: u64) {
    let chn = ch as usize;
    let n = frames as usize * chn;
    let q = (frames + more) as usize * chn;
    let mut d = [T::default(); MAXS];
    fill(&mut d[..q]);
    let z = [T::default(); MAXS];
    let mut a = analyzer(ch, rate, m);
    let mut b = analyzer(ch, rate, m);
    let p = conc(int(0, silent)) as usize;
    let _ = T::add(&mut a, &z[..p * chn]);
    let _ = T::add(&mut b, &z[..p * chn]);
    let _ = T::add(&mut a, &d[..n]);
    let k = conc(int(0, frames)) as usize;
    let _ = T::add(&mut b, &d[..k * chn]);
    let _ = T::add(&mut b, &d[k * chn..k * chn]);
    let _ = T::add(&mut b, &d[k * chn..n]);
    if more > 0 {
        let _ = T::add(&mut a, &d[n..q]);
        let _ = T::add(&mut b, &d[n..q]);
    }
    same_all(&a, &b, more > 0, 100);
}

/// silence split arbitrarily into calls moves the block clock by exactly its length
fn clock(ch: u64, rate: u64, m: u64, silent: u64, frames: u64) {
    let chn = ch as usize;
    let n = frames as usize * chn;
    let mut d = [0.0f64; MAXS];
    fill(&mut d[..n]);
    let z = [0.0f64; MAXS];
    let mut a: EbuR128 = analyzer(ch, rate, m);
    let mut b = analyzer(ch, rate, m);
    let _ = a.add_frames_f64(&z[..silent as usize * chn]);
    let k = conc(int(0, silent)) as usize;
    let l = conc(int(0, silent - k as u64)) as usize;
    let _ = b.add_frames_f64(&z[..k * chn]);
    let _ = b.add_frames_f64(&z[..l * chn]);
    let _ = b.add_frames_f64(&z[..(silent as usize - k - l) * chn]);
    let _ = a.add_frames_f64(&d[..n]);
    let _ = b.add_frames_f64(&d[..n]);
    same_all(&a, &b, true, 100);
}

/// the previous peaks are those of the last non-empty call
fn prev<T: Samp>(ch: u64, rate: u64, m: u64, f1: u64, f2: u64) {
    let chn = ch as usize;
    let mut d = [T::default(); MAXS];
    let n1 = f1 as usize * chn;
    let n = n1 + f2 as usize * chn;
    fill(&mut d[..n]);
    let mut a = analyzer(ch, rate, m);
    let mut b = analyzer(ch, rate, m);
    let _ = T::add(&mut a, &d[..n1]);
    let _ = T::add(&mut a, &d[n1..n]);
    if choice(2) == 1 {
        let _ = T::add(&mut a, &d[..0]);
    }
    let _ = T::seed(&mut b, &d[..n1]);
    let _ = T::add(&mut b, &d[n1..n]);
    for c in 0..ch as u32 {
        eq(r(a.prev_sample_peak(c)), r(b.sample_peak(c)), 120);
        cover(120);
        if a.mode().contains(ebur128::Mode::TRUE_PEAK) {
            eq(r(a.prev_true_peak(c)), r(b.true_peak(c)), 121);
            cover(121);
        }
    }
}

/// a stream of `total` frames, concrete except for n arbitrary ones from `at` on, in one call and cut anywhere
/// in from..=to; flags: 1 window of win ms, 2 surround and unused channels, 4 seeded, 8 parameters changed,
/// 16 reset, 32 shortest history, 64 nothing cut off but an empty call
fn long<T: Samp>(ch: u64, rate: u64, m: u64, flags: u64, win: u64, total: u64, at: u64, n: u64, from: u64, to: u64) {
    let chn = ch as usize;
    let len = total as usize * chn;
    let mut d = vec![T::default(); len];
    for i in 0..len {
        d[i] = T::level(i);
    }
    let mut a = analyzer(ch, rate, m);
    let mut b = analyzer(ch, rate, m);
    for e in [&mut a, &mut b] {
        if flags & 8 != 0 {
            check(T::add(e, &d[..3 * chn]).is_ok(), 140);
            check(e.change_parameters(ch as u32, rate as u32 + 1).is_ok(), 141);
            check(T::add(e, &d[..7 * chn]).is_ok(), 140);
            check(e.change_parameters(ch as u32, rate as u32).is_ok(), 142);
        }
        if flags & 1 != 0 {
            check(e.set_max_window(win as u32).is_ok(), 143);
        }
        if flags & 2 != 0 {
            check(e.set_channel(0, ebur128::Channel::RightSurround).is_ok(), 144);
            if chn > 1 {
                check(e.set_channel(1, ebur128::Channel::Unused).is_ok(), 145);
            }
        }
        if flags & 32 != 0 {
            check(e.set_max_history(if e.mode().contains(ebur128::Mode::LRA) { 3000 } else { 400 }).is_ok(), 146);
        }
        if flags & 4 != 0 {
            check(T::seed(e, &d[..5 * chn]).is_ok(), 147);
        }
        if flags & 16 != 0 {
            check(T::add(e, &d[..11 * chn]).is_ok(), 148);
            e.reset();
        }
    }
    fill(&mut d[at as usize * chn..(at + n) as usize * chn]);
    check(T::add(&mut a, &d[..len]).is_ok(), 149);
    let k = conc(int(from, to)) as usize * chn;
    check(T::add(&mut b, &d[..k]).is_ok(), 149);
    check(T::add(&mut b, &d[k..k]).is_ok(), 149);
    check(T::add(&mut b, &d[k..len]).is_ok(), 149);
    if choice(2) == 0 {
        for w in [100, 250, 399, 401, win as u32 / 2] {
            eq(r(a.loudness_window(w)), r(b.loudness_window(w)), 160);
        }
        cover(160);
    } else {
        same_all(&a, &b, false, 100);
    }
}

harnesses! {
    c01_long_f64(ch, rate, m, flags, win, total, at, n, from, to) long::<f64>(ch, rate, m, flags, win, total, at, n, from, to);
    c01_long_i16(ch, rate, m, flags, win, total, at, n, from, to) long::<i16>(ch, rate, m, flags, win, total, at, n, from, to);
    c01_split_f32(ch, rate, m, frames, splits) split::<f32>(ch, rate, m, frames, splits);
    c01_split_i16(ch, rate, m, frames, splits) split::<i16>(ch, rate, m, frames, splits);
    c01_split_i32(ch, rate, m, frames, splits) split::<i32>(ch, rate, m, frames, splits);
    c01_split_f64(ch, rate, m, frames, splits) split::<f64>(ch, rate, m, frames, splits);
    c01_split2_f64(ch, rate, m, silent, frames, more) split2::<f64>(ch, rate, m, silent, frames, more);
    c01_split2_f32(ch, rate, m, silent, frames, more) split2::<f32>(ch, rate, m, silent, frames, more);
    c01_clock(ch, rate, m, silent, frames) clock(ch, rate, m, silent, frames);
    c01_prev_f64(ch, rate, m, f1, f2) prev::<f64>(ch, rate, m, f1, f2);
    c01_prev_i16(ch, rate, m, f1, f2) prev::<i16>(ch, rate, m, f1, f2);
}
