//! C05: histogram mode counts every block in its 0.1 LU bin; C06 in histogram mode
use crate::api::*;
use crate::harnesses;
use crate::util::*;
use ebur128::history::History;

fn energy(l: f64) -> f64 {
    10f64.powf((l + 0.691) / 10.0)
}
/// lower bound and centre of the bins (0.1 LU wide from -70 LUFS on)
pub fn lower(k: usize) -> f64 {
    energy(k as f64 / 10.0 - 70.0)
}
fn centre(k: usize) -> f64 {
    energy(k as f64 / 10.0 - 69.95)
}
/// bin of an energy that is not near a bin boundary
fn bin(e: f64) -> usize {
    let l = (10.0 * e.log10() - 0.691 + 70.0) * 10.0;
    if l < 0.0 {
        0
    } else if l >= 999.0 {
        999
    } else {
        l as usize
    }
}
fn close(a: f64, b: f64) -> bool {
    let d = a - b;
    d < 1e-9 * b && d > -1e-9 * b
}

/// any energy, NaN included, is counted once, in the bin it lies in
fn one() {
    let mut h = History::new(true, 0);
    let x = f();
    h.add(x);
    match h.gating_block_count_and_energy() {
        Ok((n, e)) => {
            equ(n, 1, 500);
            let k = bin(e);
            check(close(e, centre(k)), 501);
            // the bin contains x
            if k > 0 {
                check(x >= lower(k) * (1.0 - 1e-12), 502);
            } else {
                check(!(x < ABS * (1.0 - 1e-12)), 503);
            }
            if k < 999 {
                check(!(x >= lower(k + 1) * (1.0 + 1e-12)), 504);
            }
            check(close2(h.gated_loudness(), k as f64 / 10.0 - 69.95), 505);
            check(close2(h.relative_threshold(), k as f64 / 10.0 - 79.95), 506);
            if k == 0 {
                cover(510);
            }
            if k == 999 {
                cover(511);
            }
            if k == 500 {
                cover(512);
            }
        }
        Err(_) => {
            check(x < ABS * (1.0 + 1e-12), 507);
            eq(h.relative_threshold(), -70.0, 508);
            eq(h.gated_loudness(), f64::NEG_INFINITY, 509);
            cover(513);
        }
    }
    h.reset();
    eq(h.gated_loudness(), f64::NEG_INFINITY, 514);
}
fn close2(a: f64, b: f64) -> bool {
    let d = a - b;
    d < 1e-9 && d > -1e-9
}

/// an energy within bin k, away from its boundaries
fn within(k: usize) -> f64 {
    fr(lower(k) * 1.0001, lower(k + 1) * 0.9999)
}
/// an energy anywhere in the bins from a to b - 1 (at least 0.0001% away from the outer boundaries)
fn between(a: usize, b: usize) -> f64 {
    fr(lower(a) * 1.000001, lower(b) * 0.999999)
}

/// reference multiset of bins
struct Bins {
    k: [usize; 64],
    n: usize,
}

impl Bins {
    fn new() -> Bins {
        Bins { k: [0; 64], n: 0 }
    }
    fn put(&mut self, h: &mut History, k: usize, copies: usize) {
        for _ in 0..copies {
            h.add(within(k));
            self.k[self.n] = k;
            self.n += 1;
        }
    }
    fn mean(&self) -> f64 {
        let mut s = 0.0;
        for i in 0..self.n {
            s += centre(self.k[i]);
        }
        s / self.n as f64
    }
    fn gate(&self) -> Option<(u64, f64)> {
        if self.n == 0 {
            return None;
        }
        let t = self.mean() * 0.1;
        let mut s = 0.0;
        let mut c = 0;
        for i in 0..self.n {
            // bins whose centre lies on the threshold up to rounding belong to either side
            let e = centre(self.k[i]);
            check(!close(e, t), 599);
            if e >= t {
                s += e;
                c += 1;
            }
        }
        Some((c, s))
    }
    fn range(&self) -> f64 {
        if self.n == 0 {
            return 0.0;
        }
        let t = self.mean() * 0.01;
        let mut q = [0usize; 64];
        let mut k = 0;
        for i in 0..self.n {
            if centre(self.k[i]) >= t {
                let mut j = k;
                while j > 0 && q[j - 1] > self.k[i] {
                    q[j] = q[j - 1];
                    j -= 1;
                }
                q[j] = self.k[i];
                k += 1;
            }
        }
        let m = (k - 1) as f64;
        (q[(m * 0.95 + 0.5) as usize] as f64 - q[(m * 0.1 + 0.5) as usize] as f64) / 10.0
    }
}

/// the blocks the arbitrary ones are combined with
fn base(s: u64, b: &mut Bins, h: &mut History) {
    match s {
        0 => (),
        1 => b.put(h, 0, 1),
        2 => {
            b.put(h, 300, 3);
            b.put(h, 500, 1);
        }
        3 => b.put(h, 998, 2),
        4 => {
            b.put(h, 100, 2);
            b.put(h, 350, 4);
            b.put(h, 470, 3);
        }
        5 => b.put(h, 400, 12),
        6 => {
            b.put(h, 460, 1);
            b.put(h, 450, 1);
            b.put(h, 440, 1);
            b.put(h, 470, 1);
            b.put(h, 350, 2);
        }
        _ => {
            for i in 0..21 {
                b.put(h, 300 + 13 * ((i * 8) % 21), 1);
            }
        }
    }
}

/// base set s and one energy from all of the bins [lo, hi) (and a second one within m bins above bin y)
fn gate(s: u64, lo: u64, hi: u64, y: u64, m: u64) {
    let mut h = History::new(true, 0);
    let mut b = Bins::new();
    base(s, &mut b, &mut h);
    if m > 0 {
        let v = between(y as usize, (y + m) as usize);
        add(&mut h, &mut b, v, y as usize);
    }
    let x = between(lo as usize, hi as usize);
    add(&mut h, &mut b, x, lo as usize);
    match (h.gating_block_count_and_energy(), b.gate()) {
        (Ok((n, e)), Some((c, x))) => {
            equ(n, c, 521);
            check(close(e, x), 522);
            check(close2(h.gated_loudness(), lufs(x / c as f64)), 523);
            check(close2(h.relative_threshold(), lufs(b.mean() * 0.1)), 524);
            cover(525);
        }
        _ => check(false, 526),
    }
    check(close2(h.loudness_range(), b.range()), 620);
    cover(621);
}

/// very many blocks: n1 in bin k1, n2 in bin k2, and one arbitrary energy from the bins [lo, hi)
fn count(k1: u64, n1: u64, k2: u64, n2: u64, lo: u64, hi: u64) {
    let mut h = History::new(true, 0);
    let (k1, k2) = (k1 as usize, k2 as usize);
    for _ in 0..n1 {
        h.add(centre(k1));
    }
    for _ in 0..n2 {
        h.add(centre(k2));
    }
    let mut one = Bins::new();
    let x = between(lo as usize, hi as usize);
    add(&mut h, &mut one, x, lo as usize);
    let w = [(k1, n1), (k2, n2), (one.k[0], 1)];
    let mut sum = 0.0;
    for (k, n) in w {
        sum += centre(k) * n as f64;
    }
    let mean = sum / (n1 + n2 + 1) as f64;
    let (mut c, mut s) = (0, 0.0);
    for (k, n) in w {
        check(!close(centre(k), mean * 0.1), 540);
        if centre(k) >= mean * 0.1 {
            c += n;
            s += centre(k) * n as f64;
        }
    }
    match h.gating_block_count_and_energy() {
        Ok((n, e)) => {
            equ(n, c, 541);
            check(close(e, s), 542);
            check(close2(h.gated_loudness(), lufs(s / c as f64)), 543);
            check(close2(h.relative_threshold(), lufs(mean * 0.1)), 544);
            cover(545);
        }
        _ => check(false, 546),
    }
    // k1 < k2, the arbitrary one is somewhere: the percentiles by rank
    let mut q = 0;
    for (k, n) in w {
        if centre(k) >= mean * 0.01 {
            q += n;
        }
    }
    let rank = |p: f64| ((q - 1) as f64 * p + 0.5) as u64;
    let at = |i: u64| {
        // the element of rank i among the bins that pass
        let mut best = 1000;
        for (k, _) in w {
            if centre(k) >= mean * 0.01 {
                let mut upto = 0;
                for (l, m) in w {
                    if l <= k && centre(l) >= mean * 0.01 {
                        upto += m;
                    }
                }
                if upto > i && k < best {
                    best = k;
                }
            }
        }
        best as f64
    };
    check(close2(h.loudness_range(), (at(rank(0.95)) - at(rank(0.1))) / 10.0), 640);
    cover(641);
}

/// add x, at least in bin lo, and find its bin by comparing with the boundaries
fn add(h: &mut History, b: &mut Bins, x: f64, lo: usize) {
    h.add(x);
    let mut k = lo;
    let mut step = 512;
    while step > 0 {
        if k + step <= 999 && x >= lower(k + step) {
            k += step;
        }
        step /= 2;
    }
    b.k[b.n] = k;
    b.n += 1;
}

/// an analyzer in histogram mode: an impulse of arbitrary size in [lo, hi] thousandths after p frames, q silent frames
fn api(m: u64, lo: u64, hi: u64, p: u64, q: u64) {
    let mut e = analyzer(1, 18, m | 64);
    let mut d = [0.0f64; MAXS];
    let n = (p + 1 + q) as usize;
    let v = fr(lo as f64 / 1000.0, hi as f64 / 1000.0);
    let (a, b) = (lo as f64 / 1000.0, hi as f64 / 1000.0);
    assume(v * v >= a * a);
    assume(v * v <= b * b);
    d[p as usize] = v;
    check(e.add_frames_f64(&d[..n]).is_ok(), 530);
    let s = Stream::new(1, 18, e.channel_map(), &d[..n]);
    let mut h = History::new(true, 0);
    let mut t = History::new(true, 0);
    let mut end = 8;
    while end <= n {
        h.add(s.energy(end, 8));
        end += 2;
    }
    let mut end = 60;
    while end <= n && m & 8 != 0 {
        t.add(s.energy(end, 60));
        end += 20;
    }
    eq(r(e.loudness_global()), h.gated_loudness(), 531);
    eq(r(e.relative_threshold()), h.relative_threshold(), 532);
    match (e.gating_block_count_and_energy(), h.gating_block_count_and_energy()) {
        (Some((a, x)), Ok((b, y))) => {
            equ(a, b, 533);
            eq(x, y, 534);
        }
        (None, Err(_)) => (),
        _ => check(false, 535),
    }
    cover(536);
    if m & 8 != 0 {
        eq(r(e.loudness_range()), t.loudness_range(), 622);
        cover(623);
    }
}

harnesses! {
    c05_one() one();
    c05_count(k1, n1, k2, n2, lo, hi) count(k1, n1, k2, n2, lo, hi);
    c05_gate(s, lo, hi, y, m) gate(s, lo, hi, y, m);
    c05_api(m, lo, hi, p, q) api(m, lo, hi, p, q);
}
