//! C03: gating blocks are 400 ms long, every 100 ms; short-term blocks 3 s, every second
use crate::api::*;
use crate::harnesses;
use crate::util::*;
use ebur128::history::History;

/// fp..=tp silent frames, n arbitrary frames, fq..=tq silent frames, added in one call or in two
fn blocks(ch: u64, rate: u64, m: u64, fp: u64, tp: u64, n: u64, fq: u64, tq: u64) {
    let chn = ch as usize;
    let mut e = analyzer(ch, rate, m);
    let p = conc(int(fp, tp)) as usize;
    let q = conc(int(fq, tq)) as usize;
    let mut d = [0.0f64; MAXS];
    let len = signal(&mut d, chn, p, n as usize, q);
    let cut = (p + n as usize / 2) * chn;
    check(e.add_frames_f64(&d[..cut]).is_ok(), 301);
    check(e.add_frames_f64(&d[cut..len]).is_ok(), 302);
    agrees(&e, ch, rate, &d[..len]);
}

/// the blocks of e are those of the stream d
fn agrees(e: &ebur128::EbuR128, ch: u64, rate: u64, d: &[f64]) {
    let s = Stream::new(ch, rate, e.channel_map(), d);
    let hop = (rate as usize + 5) / 10;
    let hist = e.mode().contains(ebur128::Mode::HISTOGRAM);
    if e.mode().contains(ebur128::Mode::I) {
        let mut h = History::new(hist, usize::MAX);
        let mut end = 4 * hop;
        while end <= s.n {
            h.add(s.energy(end, 4 * hop));
            end += hop;
        }
        match (e.gating_block_count_and_energy(), h.gating_block_count_and_energy()) {
            (Some((a, x)), Ok((b, y))) => {
                equ(a, b, 310);
                eq(x, y, 311);
                cover(310 + a);
            }
            (None, Err(_)) => cover(310),
            _ => check(false, 312),
        }
        eq(r(e.relative_threshold()), h.relative_threshold(), 313);
        eq(r(e.loudness_global()), h.gated_loudness(), 314);
    }
    if e.mode().contains(ebur128::Mode::LRA) {
        let mut h = History::new(hist, usize::MAX);
        let mut end = 30 * hop;
        while end <= s.n {
            h.add(s.energy(end, 30 * hop));
            end += 10 * hop;
        }
        eq(r(e.loudness_range()), h.loudness_range(), 330);
        cover(330);
    }
}

/// concrete audio, then two arbitrary frames, at a common rate: frame `at` of the step that completes block `steps`
/// (counted in steps), `after` frames later
fn rates(ch: u64, rate: u64, m: u64, win: u64, steps: u64, from: u64, to: u64, after: u64) {
    let chn = ch as usize;
    let mut e = analyzer(ch, rate, m);
    if win > 0 {
        check(e.set_max_window(win as u32).is_ok(), 303);
    }
    let hop = (rate as usize + 5) / 10;
    // the last frame lies `from`..=`to` frames around the end of the step (offset by 4)
    let n = steps as usize * hop + conc(int(from, to)) as usize - 4;
    let mut d = vec![0.0f64; (n + after as usize) * chn];
    for i in 0..d.len() {
        d[i] = f64::level(i);
    }
    fill(&mut d[(n - 2) * chn..n * chn]);
    let cut = (n - 1) * chn;
    check(e.add_frames_f64(&d[..cut]).is_ok(), 301);
    check(e.add_frames_f64(&d[cut..]).is_ok(), 302);
    agrees(&e, ch, rate, &d);
}

harnesses! {
    c03_rates(ch, rate, m, win, steps, from, to, after) rates(ch, rate, m, win, steps, from, to, after);
    c03_blocks(ch, rate, m, fp, tp, n, fq, tq) blocks(ch, rate, m, fp, tp, n, fq, tq);
}
