//! C15: combining analyzers equals analyzing their blocks together
use crate::api::*;
use crate::harnesses;
use crate::util::*;
use ebur128::history::History;
use ebur128::{EbuR128, Error};

fn count(x: Result<(u64, f64), ebur128::history::HistoryError>) -> (u64, f64) {
    x.unwrap_or((0, 0.0))
}

/// k arbitrary energies spread over three histories in every way, against one that holds them all
fn gate(k: u64, what: u64) {
    let mut h = [History::new(false, usize::MAX), History::new(false, usize::MAX), History::new(false, usize::MAX)];
    let mut u = History::new(false, usize::MAX);
    let mut x = [0.0; 8];
    let n0 = choice(k + 1);
    let n1 = choice(k + 1 - n0);
    for i in 0..k {
        x[i as usize] = fr(0.0, 1e6);
        let at = if i < n0 { 0 } else if i < n0 + n1 { 1 } else { 2 };
        h[at].add(x[i as usize]);
    }
    let rev = choice(2) == 1;
    for i in 0..k {
        u.add(x[if rev { k - 1 - i } else { i } as usize]);
    }
    let o: [&History; 3] = match choice(3) {
        0 => [&h[0], &h[1], &h[2]],
        1 => [&h[2], &h[1], &h[0]],
        _ => [&h[1], &h[0], &h[2]],
    };
    if what == 0 {
        let (c, s) = count(u.gating_block_count_and_energy());
        let (d, t) = count(History::gating_block_count_and_energy_multiple(&o));
        equ(c, d, 1500);
        eq(s, t, 1501);
        eq(History::gated_loudness_multiple(&o), u.gated_loudness(), 1502);
        if n0 == k {
            eq(History::gated_loudness_multiple(&o[..1]), h[if core::ptr::eq(o[0], &h[0]) { 0 } else if core::ptr::eq(o[0], &h[1]) { 1 } else { 2 }].gated_loudness(), 1503);
        }
        cover(1510 + c);
    } else {
        match History::loudness_range_multiple(&o) {
            Ok(y) => eq(y, u.loudness_range(), 1504),
            Err(_) => check(false, 1505),
        }
        cover(1520);
    }
}

const SETS: [&[f64]; 6] = [
    &[1e-3, 2e-3, 5e-2, 1e-2],
    &[1.0, 1.0, 1e-6, 4e-6, 1e-5, 3e-7],
    &[],
    &[0.2; 11],
    &[1e-7, 1.2e-7, 50.0, 2e-4, 2e-4],
    &[30.0, 1e-3, 2.5e-3, 0.7],
];

/// concrete histories and one arbitrary energy (any of the 2^64) in one of them
fn hist(s: u64, t: u64, lo: u64, hi: u64) {
    let (mut a, mut b, mut u) = (History::new(true, usize::MAX), History::new(true, usize::MAX), History::new(true, usize::MAX));
    for &x in SETS[s as usize] {
        a.add(x);
        u.add(x);
    }
    for &x in SETS[t as usize] {
        b.add(x);
        u.add(x);
    }
    // one arbitrary energy in the bins lo..hi
    let k = lo + choice(hi - lo);
    let x = fr(crate::c05::lower(k as usize) * 1.0000001, crate::c05::lower(k as usize + 1) * 0.9999999);
    if choice(2) == 0 {
        a.add(x);
    } else {
        b.add(x);
    }
    u.add(x);
    let o = if choice(2) == 0 { [&a, &b] } else { [&b, &a] };
    let (c, s) = count(u.gating_block_count_and_energy());
    let (d, t) = count(History::gating_block_count_and_energy_multiple(&o));
    equ(c, d, 1530);
    eq(s, t, 1531);
    eq(History::gated_loudness_multiple(&o), u.gated_loudness(), 1532);
    match History::loudness_range_multiple(&o) {
        Ok(y) => eq(y, u.loudness_range(), 1533),
        Err(_) => check(false, 1534),
    }
    cover(1535);
}

/// a gate over many blocks
struct Big {
    e: [f64; 128],
    n: usize,
}

impl Big {
    fn add(&mut self, x: f64) {
        if x >= ABS {
            self.e[self.n] = x;
            self.n += 1;
        }
    }
    fn blocks(&mut self, s: &Stream, hop: usize, len: usize, step: usize) {
        let mut end = len * hop;
        while end <= s.n {
            self.add(s.energy(end, len * hop));
            end += step * hop;
        }
    }
    fn mean(&self) -> f64 {
        let mut s = 0.0;
        for i in 0..self.n {
            s += self.e[i];
        }
        s / self.n as f64
    }
    fn loudness(&self) -> f64 {
        if self.n == 0 {
            return f64::NEG_INFINITY;
        }
        let t = self.mean() * 0.1;
        let (mut k, mut s) = (0u64, 0.0);
        for i in 0..self.n {
            if self.e[i] >= t {
                s += self.e[i];
                k += 1;
            }
        }
        if k == 0 {
            f64::NEG_INFINITY
        } else {
            lufs(s / k as f64)
        }
    }
    fn range(&self) -> f64 {
        if self.n == 0 {
            return 0.0;
        }
        let t = self.mean() * 0.01;
        let mut q = [0.0; 128];
        let mut k = 0;
        for i in 0..self.n {
            if self.e[i] >= t {
                let mut j = k;
                while j > 0 && q[j - 1] > self.e[i] {
                    q[j] = q[j - 1];
                    j -= 1;
                }
                q[j] = self.e[i];
                k += 1;
            }
        }
        if k == 0 {
            return 0.0;
        }
        let m = (k - 1) as f64;
        lufs(q[(m * 0.95 + 0.5) as usize]) - lufs(q[(m * 0.1 + 0.5) as usize])
    }
}

/// k analyzers (more than fit inline in the list from 17 on), of which two, at any position, are fed p
/// concrete and n arbitrary frames and the others silence
fn many(rate: u64, m: u64, k: u64, p: u64, n: u64) {
    let lra = mode(m).contains(Mode::LRA) && !mode(m).contains(Mode::I);
    let mut v: Vec<EbuR128> = Vec::with_capacity(k as usize);
    let mut g = Big { e: [0.0; 128], n: 0 };
    let hop = (rate as usize + 5) / 10;
    let (x, y) = (choice(k) as usize, if k > 1 { (k / 3) as usize } else { 0 });
    for i in 0..k as usize {
        let mut d = [0.0f64; MAXS];
        let len = (p + n) as usize + i % 3;
        let mut e = analyzer(1, rate, m);
        if i == x || i == y {
            for j in 0..p as usize {
                d[j] = if (j + i) % 3 == 0 { 0.02 * (i + 1) as f64 } else { 0.0 };
            }
            fill(&mut d[p as usize..(p + n) as usize]);
            let s = Stream::new(1, rate, e.channel_map(), &d[..len]);
            if lra {
                g.blocks(&s, hop, 30, 10);
            } else {
                g.blocks(&s, hop, 4, 1);
            }
        }
        check(e.add_frames_f64(&d[..len]).is_ok(), 1540);
        v.push(e);
    }
    let fwd = choice(2) == 0;
    if lra {
        let x = if fwd { EbuR128::loudness_range_multiple(v.iter()) } else { EbuR128::loudness_range_multiple(v.iter().rev()) };
        eq(r(x), g.range(), 1541);
    } else {
        let x = if fwd { EbuR128::loudness_global_multiple(v.iter()) } else { EbuR128::loudness_global_multiple(v.iter().rev()) };
        eq(r(x), g.loudness(), 1542);
    }
    if k == 1 {
        eq(r(v[0].loudness_global()), if lra { 2e301 } else { g.loudness() }, 1543);
        eq(r(v[0].loudness_range()), if lra { g.range() } else { 2e301 }, 1544);
    }
    cover(1545);
}

use ebur128::Mode;

/// empty lists, and lists with one analyzer lacking the mode or mixing histograms, at every position
fn errors(k: u64) {
    let bad = choice(k);
    let kind = choice(4);
    let mut v: Vec<EbuR128> = Vec::with_capacity(k as usize);
    for i in 0..k {
        let m = if i != bad {
            Mode::I | Mode::LRA
        } else {
            match kind {
                0 => Mode::I,
                1 => Mode::LRA,
                2 => Mode::I | Mode::LRA | Mode::HISTOGRAM,
                _ => Mode::M | Mode::S | Mode::TRUE_PEAK,
            }
        };
        let mut e = EbuR128::new(1, 18, m).unwrap();
        let d = [0.1f64; 70];
        if (i + kind) % 2 == 0 {
            check(e.add_frames_f64(&d[..(60 + i % 5) as usize]).is_ok(), 1550);
        }
        v.push(e);
    }
    let g = EbuR128::loudness_global_multiple(v.iter());
    let l = EbuR128::loudness_range_multiple(v.iter());
    check(if kind == 1 || kind == 3 { matches!(g, Err(Error::InvalidMode)) } else { g.is_ok() }, 1551);
    check(if kind == 1 || (kind == 2 && k == 1) { l.is_ok() } else { matches!(l, Err(Error::InvalidMode)) }, 1552);
    eq(r(EbuR128::loudness_global_multiple([].into_iter())), f64::NEG_INFINITY, 1553);
    eq(r(EbuR128::loudness_range_multiple([].into_iter())), 0.0, 1554);
    cover(1555);
}

/// two histogram analyzers with concrete audio against their bins added up
fn histapi(m: u64, p: u64, q: u64) {
    let mut a = analyzer(1, 18, m);
    let mut b = analyzer(1, 18, m);
    let mut d = [0.0f64; MAXS];
    for i in 0..400 {
        d[i] = if i % 3 == 1 { 0.5 + i as f64 / 100.0 } else { -0.1 * (i % 7) as f64 };
    }
    let p = conc(int(p - 5, p)) as usize;
    let q = conc(int(q - 5, q)) as usize;
    check(a.add_frames_f64(&d[..p]).is_ok(), 1560);
    check(b.add_frames_f64(&d[20..20 + q]).is_ok(), 1561);
    let mut h = History::new(true, usize::MAX);
    let lra = !mode(m).contains(Mode::I);
    for (s, n) in [(0, p), (20, q)] {
        let s = Stream::new(1, 18, a.channel_map(), &d[s..s + n]);
        let (len, step) = if lra { (60, 20) } else { (8, 2) };
        let mut end = len;
        while end <= s.n {
            h.add(s.energy(end, len));
            end += step;
        }
    }
    let fwd = choice(2) == 0;
    let o = if fwd { [&a, &b] } else { [&b, &a] };
    if lra {
        eq(r(EbuR128::loudness_range_multiple(o.into_iter())), h.loudness_range(), 1562);
    } else {
        eq(r(EbuR128::loudness_global_multiple(o.into_iter())), h.gated_loudness(), 1563);
    }
    cover(1564);
}

harnesses! {
    c15_gate(k, what) gate(k, what);
    c15_hist(s, t, lo, hi) hist(s, t, lo, hi);
    c15_many(rate, m, k, p, n) many(rate, m, k, p, n);
    c15_errors(k) errors(k);
    c15_histapi(m, p, q) histapi(m, p, q);
}
