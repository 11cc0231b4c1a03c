//! C14: availability of the measurements
use crate::api::*;
use crate::harnesses;
use crate::util::*;
use ebur128::{Channel, EbuR128, Error};

const TOP: u64 = 0xffff_ffff;

fn has(m: u64, bits: u64) -> bool {
    m & bits == bits
}

/// result of a query: available iff ok
fn avail(x: Result<f64, Error>, ok: bool, id: u64) {
    equ(code(&x), if ok { 0 } else { 2 }, id);
}

/// per-channel query: both problems at once may be reported as either
fn peak(x: Result<f64, Error>, ok: bool, index: bool, id: u64) {
    let c = code(&x);
    if ok && index {
        equ(c, 0, id);
    } else if index {
        equ(c, 2, id);
    } else if ok {
        equ(c, 3, id);
    } else {
        check(c == 2 || c == 3, id);
    }
}

fn matrix(e: &EbuR128, m: u64, ch: u64, s: bool, id: u64) {
    avail(e.loudness_momentary(), true, id);
    avail(e.loudness_shortterm(), s, id + 1);
    avail(e.loudness_global(), has(m, 5), id + 2);
    avail(e.relative_threshold(), has(m, 5), id + 3);
    avail(e.loudness_range(), has(m, 11), id + 4);
    if !has(m, 5) {
        check(e.gating_block_count_and_energy().is_none(), id + 5);
    }
    avail(EbuR128::loudness_global_multiple([e].into_iter()), has(m, 5), id + 6);
    avail(EbuR128::loudness_range_multiple([e].into_iter()), has(m, 11), id + 7);
    avail(e.loudness_window(400), true, id + 8);
    avail(e.loudness_window(3000), s, id + 9);
    let c = int(0, TOP);
    let index = c < ch;
    peak(e.sample_peak(c as u32), has(m, 17), index, id + 10);
    peak(e.prev_sample_peak(c as u32), has(m, 17), index, id + 11);
    peak(e.true_peak(c as u32), has(m, 49), index, id + 12);
    peak(e.prev_true_peak(c as u32), has(m, 49), index, id + 13);
}

/// every mode: construction, and every query on a new analyzer, with audio, after a wider window and reset
fn modes(ch: u64, rate: u64, from: u64, n: u64) {
    let m = from + choice(n);
    let e = EbuR128::new(ch as u32, rate as u32, mode(m));
    if !has(m, 1) {
        check(matches!(e, Err(Error::InvalidMode)), 1400);
        cover(1401);
        return;
    }
    let mut e = match e {
        Ok(e) => e,
        Err(_) => {
            check(false, 1402);
            return;
        }
    };
    equ(e.mode().bits() as u64, m, 1403);
    equ(e.channels() as u64, ch, 1404);
    equ(e.rate() as u64, rate, 1405);
    equ(e.channel_map().len() as u64, ch, 1406);
    match choice(4) {
        0 => matrix(&e, m, ch, has(m, 3), 1410),
        1 => {
            let d = [0.25f32; 512];
            let k = if rate < 50 { 64 } else { 5 };
            check(e.add_frames_f32(&d[..k * ch as usize]).is_ok(), 1407);
            matrix(&e, m, ch, has(m, 3), 1430);
        }
        2 => {
            check(e.set_max_window(3000).is_ok(), 1408);
            matrix(&e, m, ch, true, 1450);
        }
        _ => {
            e.reset();
            check(e.change_parameters(ch as u32 + 1, rate as u32 + 7).is_ok(), 1409);
            matrix(&e, m, ch + 1, has(m, 3), 1470);
        }
    }
}

/// which channel counts and rates are rejected, by construction and reconfiguration, whatever the mode
fn reject(m: u64) {
    let (ch, rate) = match choice(4) {
        0 => (0, int(0, TOP)),
        1 => (int(65, TOP), int(0, TOP)),
        2 => (int(0, TOP), int(0, 15)),
        _ => (int(0, TOP), int(2822401, TOP)),
    };
    let e = EbuR128::new(ch as u32, rate as u32, mode(m));
    if has(m, 1) {
        check(matches!(e, Err(Error::NoMem)), 1490);
        let mut e = analyzer(2, 48000, m);
        let x = e.change_parameters(ch as u32, rate as u32);
        check(matches!(x, Err(Error::NoMem)), 1491);
        equ(e.channels() as u64, 2, 1492);
        equ(e.rate() as u64, 48000, 1493);
    } else {
        check(e.is_err(), 1494);
    }
    cover(1495);
}

/// every channel count
fn channels(rate: u64, m: u64) {
    let ch = 1 + choice(64);
    match EbuR128::new(ch as u32, rate as u32, mode(m)) {
        Ok(e) => {
            equ(e.channels() as u64, ch, 1500);
            equ(e.channel_map().len() as u64, ch, 1501);
        }
        Err(_) => check(false, 1502),
    }
    let mut e = analyzer(3, rate, m);
    check(e.change_parameters(ch as u32, rate as u32).is_ok(), 1503);
    equ(e.channels() as u64, ch, 1504);
    equ(e.channel_map().len() as u64, ch, 1505);
    cover(1506);
}

/// every rate
fn rates(ch: u64, m: u64) {
    let rate = int(16, 2822400);
    match EbuR128::new(ch as u32, rate as u32, mode(m)) {
        Ok(mut e) => {
            equ(e.rate() as u64, rate, 1510);
            // without channels in use the queries need not look at each of the frames
            for c in 0..ch {
                check(e.set_channel(c as u32, Channel::Unused).is_ok(), 1517);
            }
            avail(e.loudness_momentary(), true, 1511);
            avail(e.loudness_shortterm(), has(m, 3), 1512);
        }
        Err(_) => check(false, 1513),
    }
    let mut e = analyzer(ch, 48000, m);
    check(e.change_parameters(ch as u32, rate as u32).is_ok(), 1514);
    equ(e.rate() as u64, rate, 1515);
    cover(1516);
}

/// short-term loudness with every maximum window in ms
fn window(rate: u64, m: u64) {
    let mut e = analyzer(1, rate, m);
    let w = 2700 + choice(600);
    check(e.set_max_window(w as u32).is_ok(), 1520);
    equ(e.max_window() as u64, if has(m, 3) && w < 3000 { 3000 } else { w }, 1521);
    if w >= 3000 || has(m, 3) {
        avail(e.loudness_shortterm(), true, 1522);
    } else if w <= 2900 {
        // a buffer rounded up to whole 100 ms may still hold 3 s
        avail(e.loudness_shortterm(), false, 1523);
    }
    cover(1524);
}

/// modes that are not needed for a measurement do not change it
fn unrelated<T: Samp>(ch: u64, rate: u64, m: u64, x: u64, p: u64, n: u64, q: u64) {
    let mut a = analyzer(ch, rate, m);
    let mut b = analyzer(ch, rate, m | x);
    let mut d = [T::default(); MAXS];
    let len = signal(&mut d, ch as usize, p as usize, n as usize, q as usize);
    let cut = if n > 1 { (p as usize + 1) * ch as usize } else { len };
    for part in [&d[..cut], &d[cut..len]] {
        check(T::add(&mut a, part).is_ok(), 1530);
        check(T::add(&mut b, part).is_ok(), 1531);
    }
    let (g, k) = groups(a.mode());
    match g[choice(k as u64) as usize] {
        0 => {
            eq(r(a.loudness_momentary()), r(b.loudness_momentary()), 1540);
            eq(r(a.loudness_window(300)), r(b.loudness_window(300)), 1541);
            if has(m, 3) {
                eq(r(a.loudness_shortterm()), r(b.loudness_shortterm()), 1542);
            }
        }
        k => {
            for &q in GROUPS[k] {
                same_q(&a, &b, q, true, 1543);
            }
        }
    }
    cover(1560);
}

harnesses! {
    c14_modes(ch, rate, from, n) modes(ch, rate, from, n);
    c14_reject(m) reject(m);
    c14_channels(rate, m) channels(rate, m);
    c14_rates(ch, m) rates(ch, m);
    c14_window(rate, m) window(rate, m);
    c14_unrelated_f64(ch, rate, m, x, p, n, q) unrelated::<f64>(ch, rate, m, x, p, n, q);
    c14_unrelated_i16(ch, rate, m, x, p, n, q) unrelated::<i16>(ch, rate, m, x, p, n, q);
}
