//! No accepted configuration or input makes the analyzer panic or leave its buffers.
use crate::api::*;
use crate::util::*;
use ebur128::history::History;
use ebur128::{Channel, EbuR128, Error};

const TOP: u64 = 0xffff_ffff;

fn has(m: u64, x: u64) -> bool {
    m & x == x
}

/// n frames of unknown content
fn frames<T>(n: u64, ch: u64) -> &'static [T] {
    let size = std::mem::size_of::<T>() as u64;
    unsafe { std::slice::from_raw_parts(v_buffer(n * ch * size, 1) as *const T, (n * ch) as usize) }
}

/// without channels in use the number of frames and the rate can be arbitrary
fn silence(e: &mut EbuR128) {
    for c in 0..e.channels() {
        check(e.set_channel(c, Channel::Unused).is_ok(), 1800);
    }
}

fn add<T: Samp>(e: &mut EbuR128, n: u64) {
    let ch = e.channels() as u64;
    check(T::add(e, frames::<T>(n, ch)).is_ok(), 1801);
}

fn add_planar<T: Samp>(e: &mut EbuR128, n: u64) {
    let plane = frames::<T>(n, 1);
    let planes = [plane; 64];
    let ch = e.channels() as usize;
    check(T::add_planar(e, &planes[..ch]).is_ok(), 1802);
}

/// every promised measurement is answered
fn promised(e: &EbuR128, m: u64, w: u64) {
    match choice(3) {
        0 => return check(e.loudness_momentary().is_ok(), 1810),
        1 => {
            if has(m, 3) {
                check(e.loudness_shortterm().is_ok(), 1811);
            }
            return;
        }
        _ => (),
    }
    check(e.loudness_window(w as u32).is_ok(), 1812);
    check(e.loudness_window(0).is_ok(), 1816);
    if has(m, 5) {
        check(e.loudness_global().is_ok(), 1813);
        check(e.relative_threshold().is_ok(), 1814);
        e.gating_block_count_and_energy();
    }
    if has(m, 11) {
        check(e.loudness_range().is_ok(), 1815);
    }
}

/// arbitrary windows are answered or refused
fn any_window(e: &EbuR128) {
    if let Err(x) = e.loudness_window(int(0, TOP) as u32) {
        check(matches!(x, Error::InvalidMode), 1817);
    }
}

/// the k-th measurement is answered
fn answered(e: &EbuR128, k: u64) -> bool {
    match k {
        0 => e.loudness_momentary().is_ok(),
        1 => e.mode().contains(ebur128::Mode::S) == e.loudness_shortterm().is_ok(),
        2 => e.loudness_window(e.max_window() as u32).is_ok(),
        3 => e.loudness_global().is_ok(),
        4 => e.relative_threshold().is_ok(),
        5 => e.loudness_range().is_ok(),
        6 | 7 => {
            e.gating_block_count_and_energy();
            true
        }
        8 => e.sample_peak(0).is_ok(),
        9 => e.true_peak(0).is_ok(),
        10 => e.prev_sample_peak(0).is_ok(),
        _ => e.prev_true_peak(0).is_ok(),
    }
}

fn step(rate: u64) -> u64 {
    (rate + 5) / 10
}

/// every rate: two calls of up to k 100 ms steps each, with a maximum window from a list
fn rates(ch: u64, m: u64, k1: u64, k2: u64, w: u64) {
    let rate = int(16, 2822400);
    let mut e = match EbuR128::new(ch as u32, rate as u32, mode(m)) {
        Ok(e) => e,
        Err(_) => return check(false, 1820),
    };
    silence(&mut e);
    if w != 0 {
        check(e.set_max_window(w as u32).is_ok(), 1821);
    }
    let w = e.max_window() as u64;
    let s = step(rate);
    let n1 = int(0, 2822405 / 10 * k1);
    assume(n1 <= k1 * s);
    add::<i16>(&mut e, n1);
    let n2 = int(0, 2822405 / 10 * k2);
    assume(n2 <= k2 * s);
    add_planar::<f64>(&mut e, n2);
    if choice(2) == 0 {
        promised(&e, m, w);
    } else {
        any_window(&e);
    }
    cover(1822);
}

/// a long stream in pieces of a fixed number of steps, at every rate
fn long(ch: u64, m: u64, first: u64, k: u64, pieces: u64, w: u64) {
    let rate = int(16, 2822400);
    let mut e = match EbuR128::new(ch as u32, rate as u32, mode(m)) {
        Ok(e) => e,
        Err(_) => return check(false, 1825),
    };
    silence(&mut e);
    if w != 0 {
        check(e.set_max_window(w as u32).is_ok(), 1826);
    }
    let w = e.max_window() as u64;
    let s = step(rate);
    let x = int(0, 282240);
    assume(x < s);
    add::<f64>(&mut e, x + first * s);
    for _ in 0..pieces {
        add::<f32>(&mut e, k * s);
        check(e.loudness_momentary().is_ok(), 1827);
        check(e.loudness_window(w as u32).is_ok(), 1828);
        if has(m, 3) {
            check(e.loudness_shortterm().is_ok(), 1829);
        }
    }
    cover(1830);
}

/// every maximum window up to 100 s at a given rate, ring filled past its end
fn windows(ch: u64, rate: u64, m: u64, top: u64, k: u64) {
    let mut e = analyzer(ch, rate, m);
    silence(&mut e);
    let w = int(0, top);
    check(e.set_max_window(w as u32).is_ok(), 1831);
    let w = e.max_window() as u64;
    let s = step(rate);
    let n1 = int(0, k * s);
    add::<f32>(&mut e, n1);
    if choice(2) == 0 {
        return promised(&e, m, w);
    }
    let n2 = int(0, 5 * s);
    add::<i32>(&mut e, n2);
    if choice(2) == 0 {
        promised(&e, m, w);
    } else {
        any_window(&e);
    }
    cover(1832);
}

/// the maximum window is changed from one to any other after any number of frames
fn shrink(ch: u64, rate: u64, m: u64, first: u64, top: u64, k: u64) {
    let mut e = analyzer(ch, rate, m);
    silence(&mut e);
    check(e.set_max_window(first as u32).is_ok(), 1844);
    let s = step(rate);
    let n1 = int(0, k * s);
    add::<f32>(&mut e, n1);
    check(e.set_max_window(int(0, top) as u32).is_ok(), 1845);
    let w = e.max_window() as u64;
    if choice(2) == 0 {
        return promised(&e, m, w);
    }
    let n2 = int(0, 5 * s);
    add::<i32>(&mut e, n2);
    if choice(2) == 0 {
        promised(&e, m, w);
    } else {
        any_window(&e);
    }
    cover(1846);
}

/// from any rate to any other rate and number of channels, with a window set before or after
fn change(ch: u64, ch2: u64, m: u64, w: u64, k: u64) {
    let rate = int(16, 2822400);
    let mut e = match EbuR128::new(ch as u32, rate as u32, mode(m)) {
        Ok(e) => e,
        Err(_) => return check(false, 1840),
    };
    silence(&mut e);
    if w != 0 {
        check(e.set_max_window(w as u32).is_ok(), 1841);
    }
    let n = int(0, 282240 * k);
    assume(n <= k * step(rate));
    add::<f64>(&mut e, n);
    let rate2 = int(16, 2822400);
    check(e.change_parameters(ch2 as u32, rate2 as u32).is_ok(), 1842);
    silence(&mut e);
    let w = e.max_window() as u64;
    if choice(2) == 0 {
        return promised(&e, m, w);
    }
    let n = int(0, 282240 * 5);
    assume(n <= 5 * step(rate2));
    add::<i16>(&mut e, n);
    if choice(2) == 0 {
        promised(&e, m, w);
    } else {
        any_window(&e);
    }
    cover(1843);
}

/// any sample values (NaN and infinities included), any split, everything asked
fn values<T: Samp>(ch: u64, rate: u64, m: u64, w: u64, p: u64, n: u64, q: u64) {
    let mut e = analyzer(ch, rate, m);
    if w != 0 {
        check(e.set_max_window(w as u32).is_ok(), 1850);
    }
    let ch = ch as usize;
    let mut d = [T::default(); MAXS];
    let len = signal(&mut d, ch, p as usize, n as usize, choice(q + 1) as usize);
    let mut sd = [T::default(); 64];
    if choice(2) == 1 {
        fill(&mut sd[..ch]);
        check(T::seed(&mut e, &sd[..2 * ch]).is_ok(), 1851);
    }
    let cut = (p + choice(n + 1)) as usize * ch;
    check(T::add(&mut e, &d[..cut]).is_ok(), 1852);
    check(T::add(&mut e, &d[cut..len]).is_ok(), 1853);
    let (g, k) = groups(e.mode());
    for &q in GROUPS[g[choice(k as u64) as usize]] {
        check(answered(&e, q), 1854);
    }
    cover(1855);
}

/// any block energies
fn energies(hist: u64, k: u64, fixed: u64) {
    let mut a = History::new(hist == 1, 1 + choice(k + 1) as usize);
    let mut b = History::new(hist == 1, usize::MAX);
    for i in 0..fixed {
        a.add(1e-6 * (1 + i * i * i) as f64);
        b.add(0.7 / (1 + i) as f64);
    }
    for i in 0..k {
        let x = f();
        if i == 0 || choice(2) == 0 {
            a.add(x);
        } else {
            b.add(x);
        }
    }
    match choice(4) {
        0 => {
            out(a.gated_loudness());
            let _ = a.gating_block_count_and_energy();
        }
        1 => {
            out(a.relative_threshold());
            out(a.loudness_range());
        }
        2 => {
            out(History::gated_loudness_multiple(&[&b, &a]));
        }
        _ => {
            check(History::loudness_range_multiple(&[&a, &b]).is_ok(), 1860);
        }
    }
    cover(1861);
}

/// frames that do not fit the configuration are rejected and leave everything as it was
fn malformed<T: Samp>(ch: u64, rate: u64, m: u64) {
    let mut e = analyzer(ch, rate, m);
    let mut t = analyzer(ch, rate, m);
    let ch = ch as usize;
    let mut d = [T::default(); 256];
    fill(&mut d[..3 * ch]);
    check(T::add(&mut e, &d[..3 * ch]).is_ok(), 1870);
    check(T::add(&mut t, &d[..3 * ch]).is_ok(), 1871);
    let seed = choice(2) == 1;
    let r = match choice(4) {
        0 => {
            let n = choice(3 * ch as u64 + 1) as usize;
            assume(n % ch != 0);
            if seed {
                T::seed(&mut e, &d[..n])
            } else {
                T::add(&mut e, &d[..n])
            }
        }
        1 => {
            // one plane is longer or shorter than the others
            let mut p: [&[T]; 64] = [&d[..2]; 64];
            let c = choice(ch as u64) as usize;
            p[c] = &d[..[0, 1, 3, 200][choice(4) as usize]];
            assume(ch > 1);
            if seed {
                T::seed_planar(&mut e, &p[..ch])
            } else {
                T::add_planar(&mut e, &p[..ch])
            }
        }
        2 => {
            // wrong number of planes
            let p: [&[T]; 66] = [&d[..2]; 66];
            let n = choice(ch as u64 + 2) as usize;
            assume(n != ch);
            if seed {
                T::seed_planar(&mut e, &p[..n])
            } else {
                T::add_planar(&mut e, &p[..n])
            }
        }
        _ => {
            // wrong number of empty planes
            let p: [&[T]; 66] = [&[]; 66];
            let n = choice(ch as u64 + 2) as usize;
            assume(n != ch);
            if seed {
                T::seed_planar(&mut e, &p[..n])
            } else {
                T::add_planar(&mut e, &p[..n])
            }
        }
    };
    check(r.is_err(), 1872);
    check(T::add(&mut e, &d[..ch]).is_ok(), 1873);
    check(T::add(&mut t, &d[..ch]).is_ok(), 1874);
    same_all(&e, &t, true, 1880);
}

/// every number of channels, both layouts, few frames
fn channels<T: Samp>(rate: u64, m: u64, lo: u64, hi: u64, n: u64) {
    let ch = lo + choice(hi - lo + 1);
    let mut e = analyzer(ch, rate, m);
    let mut d = [T::default(); 512];
    fill(&mut d[..(n * ch) as usize]);
    check(T::add(&mut e, &d[..(n * ch) as usize]).is_ok(), 1895);
    let p: [&[T]; 64] = [&d[..n as usize]; 64];
    check(T::add_planar(&mut e, &p[..ch as usize]).is_ok(), 1896);
    check(T::seed(&mut e, &d[..(n * ch) as usize]).is_ok(), 1897);
    check(T::seed_planar(&mut e, &p[..ch as usize]).is_ok(), 1898);
    let c = choice(ch) as u32;
    for k in 8..12 {
        out(query(&e, k, c));
    }
    cover(1899);
}

/// any call with any arguments, then another one, then frames and every query
fn calls(ch: u64, rate: u64, m: u64, p: u64) {
    let mut e = analyzer(ch, rate, m);
    let d = [0.25f32; 256];
    check(e.add_frames_f32(&d[..(p * ch) as usize]).is_ok(), 1890);
    for _ in 0..2 {
        match choice(8) {
            0 => {
                let c = int(0, 0xffff_ffff);
                let ok = e.set_channel(c as u32, CHANNELS[[0, 1, 5, 6][choice(4) as usize]]);
                check(!(ok.is_ok() && c >= ch), 1891);
            }
            1 => {
                let l = choice(ch + 2) as usize;
                let ok = e.set_channel_map(&CHANNELS[7..7 + l]);
                check(ok.is_ok() == (l as u64 == ch), 1892);
            }
            2 => {
                // rejected or small enough to be allocated
                let w = [0, 1, 399, 401, 777, 2999, 3001][choice(7) as usize];
                check(e.set_max_window(w as u32).is_ok(), 1893);
            }
            3 => check(e.set_max_history(int(0, 0xffff_ffff) as u32).is_ok(), 1894),
            4 => {
                // anything but a valid change
                let (c, r) = (int(0, 0xffff_ffff), int(0, 0xffff_ffff));
                assume(c == 0 || c > 64 || r < 16 || r > 2822400);
                check(e.change_parameters(c as u32, r as u32).is_err(), 1895);
            }
            5 => {
                let c = 1 + choice(4);
                check(e.change_parameters(c as u32, rate as u32 + choice(2) as u32).is_ok(), 1896);
                break;
            }
            6 => {
                let c = int(0, 0xffff_ffff) as u32;
                let _ = (e.sample_peak(c).is_ok(), e.prev_sample_peak(c).is_ok(), e.true_peak(c).is_ok(), e.prev_true_peak(c).is_ok());
            }
            _ => {
                e.reset();
                break;
            }
        }
    }
    let c = e.channels() as u64;
    check(e.add_frames_f32(&d[..(5 * c) as usize]).is_ok(), 1897);
    for c in 0..=e.channels() {
        let _ = (e.sample_peak(c).is_ok(), e.prev_sample_peak(c).is_ok(), e.true_peak(c).is_ok(), e.prev_true_peak(c).is_ok());
    }
    let _ = (answered(&e, 0), answered(&e, 1), answered(&e, 2), answered(&e, 3), answered(&e, 4));
    cover(1898);
}

harnesses! {
    c18_calls(ch, rate, m, p) calls(ch, rate, m, p);
    c18_rates(ch, m, k1, k2, w) rates(ch, m, k1, k2, w);
    c18_long(ch, m, first, k, pieces, w) long(ch, m, first, k, pieces, w);
    c18_shrink(ch, rate, m, first, top, k) shrink(ch, rate, m, first, top, k);
    c18_windows(ch, rate, m, top, k) windows(ch, rate, m, top, k);
    c18_change(ch, ch2, m, w, k) change(ch, ch2, m, w, k);
    c18_values_f64(ch, rate, m, w, p, n, q) values::<f64>(ch, rate, m, w, p, n, q);
    c18_values_f32(ch, rate, m, w, p, n, q) values::<f32>(ch, rate, m, w, p, n, q);
    c18_values_i16(ch, rate, m, w, p, n, q) values::<i16>(ch, rate, m, w, p, n, q);
    c18_values_i32(ch, rate, m, w, p, n, q) values::<i32>(ch, rate, m, w, p, n, q);
    c18_energies(hist, k, fixed) energies(hist, k, fixed);
    c18_malformed_f64(ch, rate, m) malformed::<f64>(ch, rate, m);
    c18_malformed_i16(ch, rate, m) malformed::<i16>(ch, rate, m);
    c18_channels_f32(rate, m, lo, hi, n) channels::<f32>(rate, m, lo, hi, n);
    c18_channels_i16(rate, m, lo, hi, n) channels::<i16>(rate, m, lo, hi, n);
}
