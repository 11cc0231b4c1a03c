//! C04: integrated loudness is the two-stage gated mean
use crate::api::*;
use crate::harnesses;
use crate::util::*;
use ebur128::history::History;

/// a history of k arbitrary energies, queries interleaved with the additions
fn gate(k: u64) {
    let mut h = History::new(false, usize::MAX);
    let mut g = Gate::new();
    for _ in 0..k {
        let x = fr(0.0, 1e6);
        h.add(x);
        g.add(x);
    }
    let (c, s) = g.gated();
    match h.gating_block_count_and_energy() {
        Ok((n, e)) => {
            equ(n, c, 400);
            eq(e, s, 401);
            check(n > 0, 402);
            cover(410 + n);
        }
        Err(_) => {
            equ(c, 0, 403);
            cover(410);
        }
    }
    eq(h.relative_threshold(), g.threshold_lufs(), 404);
    eq(h.gated_loudness(), g.loudness(), 405);
    // monotone use of the queries: asking does not change anything
    eq(h.gated_loudness(), g.loudness(), 406);
    h.reset();
    eq(h.gated_loudness(), f64::NEG_INFINITY, 407);
    eq(h.relative_threshold(), -70.0, 408);
}

/// the same through an analyzer: p silent, n arbitrary, q silent frames of one channel
fn api(ch: u64, rate: u64, m: u64, fp: u64, tp: u64, n: u64, fq: u64, tq: u64) {
    let chn = ch as usize;
    let mut e = analyzer(ch, rate, m);
    let p = conc(int(fp, tp)) as usize;
    let q = conc(int(fq, tq)) as usize;
    let mut d = [0.0f64; MAXS];
    let len = signal(&mut d, chn, p, n as usize, q);
    check(e.add_frames_f64(&d[..len]).is_ok(), 420);
    let s = Stream::new(ch, rate, e.channel_map(), &d[..len]);
    let hop = (rate as usize + 5) / 10;
    let mut g = Gate::new();
    let mut end = 4 * hop;
    while end <= s.n {
        g.add(s.energy(end, 4 * hop));
        end += hop;
    }
    let (c, x) = g.gated();
    match e.gating_block_count_and_energy() {
        Some((n, y)) => {
            equ(n, c, 421);
            eq(y, x, 422);
            cover(430 + n);
        }
        None => {
            equ(c, 0, 423);
            cover(430);
        }
    }
    eq(r(e.relative_threshold()), g.threshold_lufs(), 424);
    eq(r(e.loudness_global()), g.loudness(), 425);
}

harnesses! {
    c04_gate(k) gate(k);
    c04_api(ch, rate, m, fp, tp, n, fq, tq) api(ch, rate, m, fp, tp, n, fq, tq);
}
