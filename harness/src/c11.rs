//! C11: reset() restores the state of a new analyzer
use crate::api::*;
use crate::harnesses;
use crate::util::*;
use ebur128::{Channel, EbuR128};

/// bit 0: channel map, bit 1: longer window, bit 2: short history, bit 3: parameters changed beforehand
fn configured(ch: u64, rate: u64, m: u64, cfg: u64, used: bool) -> EbuR128 {
    let mut e = if used && cfg & 8 != 0 {
        let mut e = analyzer(if ch == 2 { 1 } else { 2 }, rate + 1, m);
        let d = [0.25f32; 8];
        check(e.add_frames_f32(&d).is_ok(), 1100);
        check(e.change_parameters(ch as u32, rate as u32).is_ok(), 1101);
        e
    } else {
        analyzer(ch, rate, m)
    };
    if cfg & 1 != 0 {
        check(e.set_channel(0, Channel::LeftSurround).is_ok(), 1102);
    }
    if cfg & 2 != 0 {
        check(e.set_max_window(3600).is_ok(), 1103);
    }
    if cfg & 4 != 0 {
        check(e.set_max_history(if mode(m).contains(ebur128::Mode::S) { 3000 } else { 400 }).is_ok(), 1104);
    }
    e
}

/// bit 4 of cfg: the first part is concrete (for histograms), bit 5: it may be used for seeding, too
/// p silent and n1 arbitrary frames and q silent ones, reset; then nothing, n2 arbitrary frames after r silent ones, or seeding
fn reset(ch: u64, rate: u64, m: u64, cfg: u64, p: u64, n1: u64, q: u64, z: u64, n2: u64) {
    let chn = ch as usize;
    let mut a = configured(ch, rate, m, cfg, true);
    let mut b = configured(ch, rate, m, cfg, false);
    let mut d = [0.0f64; MAXS];
    let len = if cfg & 16 != 0 {
        let n = (p + n1 + q) as usize * chn;
        for i in 0..n {
            d[i] = if i % 5 == 3 { 0.5 } else { 0.01 };
        }
        n
    } else {
        signal(&mut d, chn, p as usize, n1 as usize, q as usize)
    };
    if cfg & 32 != 0 && choice(2) == 1 {
        check(a.seed_frames_f64(&d[p as usize * chn..len]).is_ok(), 1110);
    }
    check(a.add_frames_f64(&d[..len]).is_ok(), 1111);
    a.reset();
    let how = choice(3);
    if how > 0 {
        let mut o = [0.0f64; MAXS];
        let len = signal(&mut o, chn, z as usize, n2 as usize, 0);
        if how == 1 {
            check(a.add_frames_f64(&o[..len]).is_ok(), 1112);
            check(b.add_frames_f64(&o[..len]).is_ok(), 1113);
        } else {
            let s = if z > 0 { z as usize * chn } else { chn };
            check(a.seed_frames_f64(&o[..s]).is_ok(), 1114);
            check(b.seed_frames_f64(&o[..s]).is_ok(), 1115);
            check(a.add_frames_f64(&o[s..len]).is_ok(), 1116);
            check(b.add_frames_f64(&o[s..len]).is_ok(), 1117);
        }
    }
    equ(a.rate() as u64, rate, 1120);
    equ(a.channels() as u64, ch, 1121);
    equ(a.max_window() as u64, b.max_window() as u64, 1122);
    equ(a.max_history() as u64, b.max_history() as u64, 1123);
    check(a.mode() == b.mode(), 1124);
    for c in 0..chn {
        equ(a.channel_map()[c] as u64, b.channel_map()[c] as u64, 1125);
    }
    same_all(&a, &b, true, 1130);
}

/// p frames of audio (seeded or added), reset, z frames of audio and n arbitrary ones
fn long<T: Samp>(ch: u64, rate: u64, m: u64, cfg: u64, p: u64, z: u64, n: u64) {
    let chn = ch as usize;
    let mut a = configured(ch, rate, m, cfg, true);
    let mut b = configured(ch, rate, m, cfg, false);
    let d = audio::<T>(chn, 5, p as usize, 0);
    let cut = d.len() / chn / 3 * chn;
    check(T::add(&mut a, &d[..cut]).is_ok(), 1160);
    if choice(2) == 0 {
        check(T::add(&mut a, &d[cut..]).is_ok(), 1161);
    } else {
        check(T::seed(&mut a, &d[cut..]).is_ok(), 1162);
    }
    a.reset();
    let o = audio::<T>(chn, 0, z as usize, n as usize);
    check(T::add(&mut a, &o).is_ok(), 1163);
    check(T::add(&mut b, &o).is_ok(), 1164);
    same_all(&a, &b, true, 1170);
}

/// a histogram is empty after reset, whatever was in it
fn hist() {
    use ebur128::history::History;
    let mut h = History::new(true, 100);
    h.add(0.01);
    h.add(f());
    h.reset();
    eq(h.gated_loudness(), f64::NEG_INFINITY, 1150);
    eq(h.relative_threshold(), -70.0, 1151);
    eq(h.loudness_range(), 0.0, 1152);
    check(h.gating_block_count_and_energy().is_err(), 1153);
    h.add(0.02);
    match h.gating_block_count_and_energy() {
        Ok((n, _)) => equ(n, 1, 1154),
        _ => check(false, 1155),
    }
    cover(1156);
}

harnesses! {
    c11_long_f64(ch, rate, m, cfg, p, z, n) long::<f64>(ch, rate, m, cfg, p, z, n);
    c11_long_i16(ch, rate, m, cfg, p, z, n) long::<i16>(ch, rate, m, cfg, p, z, n);
    c11_hist() hist();
    c11_reset(ch, rate, m, cfg, p, n1, q, z, n2) reset(ch, rate, m, cfg, p, n1, q, z, n2);
}
