//! C12: changing parameters restarts measurement and keeps the history
use crate::api::*;
use crate::harnesses;
use crate::util::*;
use ebur128::{Channel, EbuR128};

fn max(a: f64, b: f64) -> f64 {
    if b > a {
        b
    } else {
        a
    }
}

/// the window measurements; b may have been left with the default maximum
fn windows(a: &EbuR128, b: &EbuR128, id: u64) {
    for k in [0, 1] {
        eq(query(a, k, 0), query(b, k, 0), id + k);
    }
    let w = if a.max_window() < b.max_window() { a.max_window() } else { b.max_window() };
    eq(r(a.loudness_window(w as u32)), r(b.loudness_window(w as u32)), id + 2);
}

/// what a still has of `pre`, after it has been reconfigured like the fresh b
fn compare(a: &EbuR128, b: &EbuR128, pre: &EbuR128, keep_peaks: bool, id: u64) {
    let (g, n) = groups(a.mode());
    match g[choice(n as u64) as usize] {
        0 => {
            windows(a, b, id);
            cover(id);
        }
        1 => {
            eq(r(a.loudness_global()), r(EbuR128::loudness_global_multiple([pre, b].into_iter())), id + 3);
            let na = a.gating_block_count_and_energy();
            check(na.is_some() || (pre.gating_block_count_and_energy().is_none() && b.gating_block_count_and_energy().is_none()), id + 4);
            cover(id + 1);
        }
        2 => {
            eq(r(a.loudness_range()), r(EbuR128::loudness_range_multiple([pre, b].into_iter())), id + 5);
            cover(id + 2);
        }
        k => {
            let (now, prev) = if k == 3 { (8, 10) } else { (9, 11) };
            for c in 0..a.channels() {
                eq(query(a, prev, c), query(b, prev, c), id + prev);
                let x = query(b, now, c);
                eq(query(a, now, c), if keep_peaks { max(query(pre, now, c), x) } else { x }, id + now);
            }
            cover(id + 3);
        }
    }
}

/// p silent, n1 arbitrary, q silent frames, change_parameters, z silent and n2 arbitrary frames
fn change(ch1: u64, rate1: u64, ch2: u64, rate2: u64, m: u64, maxw: u64, p: u64, n1: u64, q: u64, z: u64, n2: u64) {
    let (c1, c2) = (ch1 as usize, ch2 as usize);
    let mut a = analyzer(ch1, rate1, m);
    let mut pre = analyzer(ch1, rate1, m);
    let mut b = analyzer(ch2, rate2, m);
    if maxw > 0 {
        check(a.set_max_window(maxw as u32).is_ok(), 1200);
        check(b.set_max_window(maxw as u32).is_ok(), 1201);
    }
    check(a.set_channel(0, Channel::LeftSurround).is_ok(), 1202);
    check(pre.set_channel(0, Channel::LeftSurround).is_ok(), 1203);
    if ch1 == ch2 {
        check(b.set_channel(0, Channel::LeftSurround).is_ok(), 1204);
    }
    let mut d = [0.0f64; MAXS];
    let len = signal(&mut d, c1, p as usize, n1 as usize, q as usize);
    check(a.add_frames_f64(&d[..len]).is_ok(), 1205);
    check(pre.add_frames_f64(&d[..len]).is_ok(), 1206);
    let mut o = [0.0f64; MAXS];
    let len = signal(&mut o, c2, z as usize, n2 as usize, 0);
    check(a.change_parameters(ch2 as u32, rate2 as u32).is_ok(), 1207);
    equ(a.channels() as u64, ch2, 1210);
    equ(a.rate() as u64, rate2, 1211);
    equ(a.max_window() as u64, b.max_window() as u64, 1212);
    equ(a.max_history() as u64, b.max_history() as u64, 1213);
    check(a.mode() == b.mode(), 1214);
    equ(a.channel_map().len() as u64, ch2, 1215);
    for c in 0..c2 {
        equ(a.channel_map()[c] as u64, b.channel_map()[c] as u64, 1216);
    }
    if choice(2) == 0 {
        check(a.add_frames_f64(&o[..len]).is_ok(), 1217);
        check(b.add_frames_f64(&o[..len]).is_ok(), 1218);
    }
    compare(&a, &b, &pre, ch1 == ch2, 1220);
}

/// p frames of audio, the change (of the parameters, or with ch2 = 0 of the window), then z frames of audio and n arbitrary ones
fn long(ch1: u64, rate1: u64, ch2: u64, rate2: u64, m: u64, maxw: u64, p: u64, z: u64, n: u64) {
    let mut a = analyzer(ch1, rate1, m);
    let mut pre = analyzer(ch1, rate1, m);
    let d = audio::<f64>(ch1 as usize, 7, p as usize, 0);
    let mut b = if ch2 == 0 { analyzer(ch1, rate1, m) } else { analyzer(ch2, rate2, m) };
    check(a.add_frames_f64(&d).is_ok(), 1290);
    check(pre.add_frames_f64(&d).is_ok(), 1291);
    if ch2 == 0 {
        check(b.seed_frames_f64(&d).is_ok(), 1292);
        check(a.set_max_window(maxw as u32).is_ok(), 1293);
    } else {
        check(a.change_parameters(ch2 as u32, rate2 as u32).is_ok(), 1294);
        if maxw > 0 {
            check(a.set_max_window(maxw as u32).is_ok(), 1295);
        }
    }
    // b keeps the default maximum: setting another restarts, and is seen in longer windows only
    let o = audio::<f64>(a.channels() as usize, 0, z as usize, n as usize);
    check(a.add_frames_f64(&o).is_ok(), 1297);
    check(b.add_frames_f64(&o).is_ok(), 1298);
    compare(&a, &b, &pre, ch2 == 0 || ch1 == ch2, 1900);
}

/// the same with set_max_window, which keeps the filters running
fn window(ch: u64, rate: u64, m: u64, maxw: u64, p: u64, n1: u64, q: u64, z: u64, n2: u64) {
    let chn = ch as usize;
    let mut a = analyzer(ch, rate, m);
    let mut pre = analyzer(ch, rate, m);
    let mut b = analyzer(ch, rate, m);
    let mut d = [0.0f64; MAXS];
    let len = signal(&mut d, chn, p as usize, n1 as usize, q as usize);
    check(a.add_frames_f64(&d[..len]).is_ok(), 1240);
    check(pre.add_frames_f64(&d[..len]).is_ok(), 1241);
    check(b.seed_frames_f64(&d[..len]).is_ok(), 1242);
    check(a.set_max_window(maxw as u32).is_ok(), 1243);
    if choice(2) == 0 {
        check(b.set_max_window(maxw as u32).is_ok(), 1244);
        equ(a.max_window() as u64, b.max_window() as u64, 1245);
    }
    let mut o = [0.0f64; MAXS];
    let len = signal(&mut o, chn, z as usize, n2 as usize, 0);
    if choice(2) == 0 {
        check(a.add_frames_f64(&o[..len]).is_ok(), 1247);
        check(b.add_frames_f64(&o[..len]).is_ok(), 1248);
        compare(&a, &b, &pre, true, 1250);
    } else {
        // nothing added: the peaks of the last call stay
        windows(&a, &b, 1270);
        for k in [3, 4, 5, 6, 7, 8, 9, 10, 11] {
            eq(query(&a, k, 0), query(&pre, k, 0), 1270 + k);
        }
        cover(1270);
    }
}

/// calls that change nothing or are rejected leave no trace
fn nothing(ch: u64, rate: u64, m: u64, maxw: u64, p: u64, n1: u64, n2: u64) {
    let chn = ch as usize;
    let mut a = analyzer(ch, rate, m);
    let mut b = analyzer(ch, rate, m);
    if maxw > 0 {
        check(a.set_max_window(maxw as u32).is_ok(), 1280);
        check(b.set_max_window(maxw as u32).is_ok(), 1281);
    }
    check(a.set_channel(0, Channel::Mp060).is_ok(), 1282);
    check(b.set_channel(0, Channel::Mp060).is_ok(), 1283);
    let mut d = [0.0f64; MAXS];
    let len = signal(&mut d, chn, p as usize, n1 as usize, 0);
    check(a.add_frames_f64(&d[..len]).is_ok(), 1284);
    check(b.add_frames_f64(&d[..len]).is_ok(), 1285);
    match choice(4) {
        0 => check(a.change_parameters(ch as u32, rate as u32).is_ok(), 1286),
        1 => {
            let (x, y) = (int(0, 0xffff_ffff), int(0, 0xffff_ffff));
            assume(x < 1 || x > 64 || y < 16 || y > 2822400);
            equ(code(&a.change_parameters(x as u32, y as u32)), 1, 1287);
        }
        2 => {
            // every value that is clamped to the current window
            let lo = if mode(m).contains(ebur128::Mode::S) { 3000 } else { 400 };
            let w = int(0, 0xffff_ffff);
            let c = if w < lo { lo } else { w };
            assume(c == a.max_window() as u64);
            check(a.set_max_window(w as u32).is_ok(), 1288);
        }
        _ => {
            let h = int(0, 0xffff_ffff);
            check(a.set_max_history(h as u32).is_ok(), 1289);
            let h2 = a.max_history() as u64;
            let lo = if mode(m).contains(ebur128::Mode::S) { 3000 } else { 400 };
            equ(h2, if h < lo { lo } else { h }, 1290);
            check(a.set_max_history(h as u32).is_ok(), 1291);
            equ(h2, a.max_history() as u64, 1292);
            check(b.set_max_history(h2 as u32).is_ok(), 1293);
        }
    }
    let mut o = [0.0f64; MAXS];
    let n = n2 as usize * chn;
    fill(&mut o[..n]);
    check(a.add_frames_f64(&o[..n]).is_ok(), 1294);
    check(b.add_frames_f64(&o[..n]).is_ok(), 1295);
    equ(a.channels() as u64, ch, 1296);
    equ(a.rate() as u64, rate, 1297);
    equ(a.max_window() as u64, b.max_window() as u64, 1298);
    for c in 0..chn {
        equ(a.channel_map()[c] as u64, b.channel_map()[c] as u64, 1299);
    }
    same_all(&a, &b, true, 1300);
}

/// window lengths are clamped by mode and reported
fn getters(ch: u64, rate: u64, m: u64) {
    const W: [u64; 12] = [0, 1, 100, 399, 400, 401, 1000, 2999, 3000, 3001, 4321, 5000];
    let mut a = analyzer(ch, rate, m);
    let lo = if mode(m).contains(ebur128::Mode::S) { 3000 } else { 400 };
    equ(a.max_window() as u64, lo, 1310);
    equ(a.max_history() as u64, usize::MAX as u64, 1311);
    equ(a.mode().bits() as u64, m, 1312);
    for _ in 0..2 {
        let w = W[choice(12) as usize];
        check(a.set_max_window(w as u32).is_ok(), 1313);
        equ(a.max_window() as u64, w.max(lo), 1314);
    }
    equ(a.max_history() as u64, usize::MAX as u64, 1315);
    equ(a.channels() as u64, ch, 1316);
    equ(a.rate() as u64, rate, 1317);
    cover(1318);
}

harnesses! {
    c12_long(ch1, rate1, ch2, rate2, m, maxw, p, z, n) long(ch1, rate1, ch2, rate2, m, maxw, p, z, n);
    c12_change(ch1, rate1, ch2, rate2, m, maxw, p, n1, q, z, n2) change(ch1, rate1, ch2, rate2, m, maxw, p, n1, q, z, n2);
    c12_window(ch, rate, m, maxw, p, n1, q, z, n2) window(ch, rate, m, maxw, p, n1, q, z, n2);
    c12_nothing(ch, rate, m, maxw, p, n1, n2) nothing(ch, rate, m, maxw, p, n1, n2);
    c12_getters(ch, rate, m) getters(ch, rate, m);
}
