//! C07: momentary, short-term and window loudness cover exactly the last frames
use crate::api::*;
use crate::harnesses;
use crate::util::*;
use ebur128::{EbuR128, Error};

fn expect(e: &EbuR128, s: &Stream, x: Result<f64, Error>, frames: usize, must: bool, id: u64) {
    match x {
        Ok(v) => {
            eq(v, lufs(s.energy(s.n, frames)), id);
            cover(id);
        }
        Err(Error::InvalidMode) => {
            check(!must, id + 1);
            cover(id + 1);
        }
        Err(_) => check(false, id + 2),
    }
    let _ = e;
}

/// fp..=tp silent frames, n arbitrary frames, fq..=tq silent frames; kind 0: momentary and short-term, 1: every window
fn window(ch: u64, rate: u64, m: u64, maxw: u64, fp: u64, tp: u64, n: u64, fq: u64, tq: u64, kind: u64, tw: u64) {
    let chn = ch as usize;
    let mut e = analyzer(ch, rate, m);
    if maxw > 0 {
        check(e.set_max_window(maxw as u32).is_ok(), 700);
    }
    let p = conc(int(fp, tp)) as usize;
    let q = conc(int(fq, tq)) as usize;
    let mut d = [0.0f64; MAXS];
    let len = signal(&mut d, chn, p, n as usize, q);
    check(e.add_frames_f64(&d[..p * chn]).is_ok(), 701);
    check(e.add_frames_f64(&d[p * chn..len]).is_ok(), 702);
    let s = Stream::new(ch, rate, e.channel_map(), &d[..len]);
    let hop = (rate as usize + 5) / 10;
    if kind == 0 {
        expect(&e, &s, e.loudness_momentary(), 4 * hop, true, 710);
        expect(&e, &s, e.loudness_shortterm(), 30 * hop, e.max_window() >= 3000, 720);
    } else {
        // every window length in frames, and the longest one in ms that still has so many
        let f = conc(int(1, tw));
        let lo = (f * 1000 + rate - 1) / rate;
        let hi = ((f + 1) * 1000 - 1) / rate;
        let w = if choice(2) == 0 { lo } else { hi };
        if rate * w / 1000 == f {
            expect(&e, &s, e.loudness_window(w as u32), f as usize, w as usize <= e.max_window(), 730);
        }
    }
}

/// n frames of audio at a common rate, the last two but `after` arbitrary; momentary, short-term, windows of w ms and the longest
fn rates(ch: u64, rate: u64, m: u64, maxw: u64, n: u64, after: u64, w: u64) {
    let chn = ch as usize;
    let mut e = analyzer(ch, rate, m);
    if maxw > 0 {
        check(e.set_max_window(maxw as u32).is_ok(), 760);
    }
    let n = n as usize;
    let mut d = vec![0.0f64; n * chn];
    for i in 0..d.len() {
        d[i] = f64::level(i);
    }
    let at = n - after as usize;
    fill(&mut d[(at - 2) * chn..at * chn]);
    let cut = n / 3 * chn;
    check(e.add_frames_f64(&d[..cut]).is_ok(), 761);
    check(e.add_frames_f64(&d[cut..]).is_ok(), 762);
    let s = Stream::new(ch, rate, e.channel_map(), &d);
    let hop = (rate as usize + 5) / 10;
    expect(&e, &s, e.loudness_momentary(), 4 * hop, true, 710);
    expect(&e, &s, e.loudness_shortterm(), 30 * hop, e.max_window() >= 3000, 720);
    let x = e.max_window() as u64;
    for w in [w, 1, 100, x - 1, x, x + 1000] {
        let f = rate * w / 1000;
        if f > 0 {
            expect(&e, &s, e.loudness_window(w as u32), f as usize, w <= x, 770);
        }
    }
}

/// a window that cannot be held is refused whatever its length in ms is
fn refuse(ch: u64, rate: u64, m: u64) {
    let e = analyzer(ch, rate, m);
    let w = int(0, 0xffff_ffff);
    let hop = (rate + 5) / 10;
    let max = e.max_window() as u64;
    let cap = (max * rate / 1000).max(hop * (max.min(3000) / 100));
    assume(w * rate / 1000 > cap + hop);
    check(matches!(e.loudness_window(w as u32), Err(Error::InvalidMode)), 750);
    cover(750);
}

harnesses! {
    c07_rates(ch, rate, m, maxw, n, after, w) rates(ch, rate, m, maxw, n, after, w);
    c07_window(ch, rate, m, maxw, fp, tp, n, fq, tq, kind, tw) window(ch, rate, m, maxw, fp, tp, n, fq, tq, kind, tw);
    c07_refuse(ch, rate, m) refuse(ch, rate, m);
}
