//! C06: loudness range is the 10%-95% spread of the gated short-term blocks
use crate::api::*;
use crate::harnesses;
use crate::util::*;
use ebur128::history::History;

/// k arbitrary energies
fn range(k: u64) {
    let mut h = History::new(false, usize::MAX);
    let mut g = Gate::new();
    for _ in 0..k {
        let x = fr(0.0, 1e6);
        h.add(x);
        g.add(x);
    }
    let v = h.loudness_range();
    eq(v, g.range(), 600);
    cover(600 + g.n as u64);
}

/// big histories: k concrete energies (multiples of 1e-3 in scrambled order, every gth ten thousand
/// times bigger) and n arbitrary ones that differ from all of them (between which of them is a choice)
fn many(k: u64, n: u64, a: u64, g: u64) {
    let mut h = History::new(false, usize::MAX);
    let mut q = [0.0f64; 256];
    let mut len = 0;
    let pos = choice(2) == 1;
    for i in 0..k {
        let j = (i * a) % k;
        let x = (j + 1) as f64 * if g > 0 && j % g == 0 { 10.0 } else { 1e-3 };
        if pos && i == k / 2 {
            some(&mut h, &mut q, &mut len, n, k);
        }
        h.add(x);
        q[len] = x;
        len += 1;
    }
    if !pos {
        some(&mut h, &mut q, &mut len, n, k);
    }
    let mut s = 0.0;
    for i in 0..len {
        s += q[i];
    }
    let t = s / len as f64 * 0.01;
    let mut o = [0.0f64; 256];
    let mut m = 0;
    for i in 0..len {
        if q[i] >= t {
            let mut j = m;
            while j > 0 && o[j - 1] > q[i] {
                o[j] = o[j - 1];
                j -= 1;
            }
            o[j] = q[i];
            m += 1;
        }
    }
    let c = (m - 1) as f64;
    eq(h.loudness_range(), lufs(o[(c * 0.95 + 0.5) as usize]) - lufs(o[(c * 0.1 + 0.5) as usize]), 620);
    cover(620);
}

fn some(h: &mut History, q: &mut [f64; 256], len: &mut usize, n: u64, k: u64) {
    let mut lo = 0;
    for _ in 0..n {
        lo += choice(k + 1 - lo);
        let x = if lo == 0 { fr(1e-6, 0.0009) } else { fr(lo as f64 * 1e-3 + 1e-6, (lo + 1) as f64 * 1e-3 - 1e-6) };
        h.add(x);
        q[*len] = x;
        *len += 1;
        lo += 1;
        if lo > k {
            break;
        }
    }
}

/// the order in which the blocks came does not matter, and a range is never negative
fn order(k: u64) {
    let k = k as usize;
    let mut e = [0.0f64; 16];
    let mut h = History::new(false, usize::MAX);
    let mut p = History::new(false, usize::MAX);
    for i in 0..k {
        e[i] = fr(0.0, 1e6);
        h.add(e[i]);
    }
    // any permutation
    let mut used = [false; 16];
    for i in 0..k {
        let mut j = choice((k - i) as u64) as usize;
        let mut x = 0;
        loop {
            if !used[x] {
                if j == 0 {
                    break;
                }
                j -= 1;
            }
            x += 1;
        }
        used[x] = true;
        p.add(e[x]);
    }
    let v = h.loudness_range();
    eq(v, p.loudness_range(), 640);
    check(!(v < 0.0), 641);
    cover(640);
}

harnesses! {
    c06_range(k) range(k);
    c06_many(k, n, a, g) many(k, n, a, g);
    c06_order(k) order(k);
}
