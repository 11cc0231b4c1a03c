//! C13: the history keeps exactly the newest blocks up to the configured maximum
use crate::api::*;
use crate::harnesses;
use crate::util::*;
use ebur128::history::History;
use ebur128::Mode;

/// newest energies, at most max of them
struct Newest {
    e: [f64; 64],
    n: usize,
    max: u64,
    lim: u64,
}

impl Newest {
    fn new(max: u64, lim: u64) -> Newest {
        Newest { e: [0.0; 64], n: 0, max, lim }
    }
    fn trim(&mut self) {
        let mut drop = 0;
        while (self.n - drop) as u64 > self.max {
            drop += 1;
        }
        for i in drop..self.n {
            self.e[i - drop] = self.e[i];
        }
        self.n -= drop;
    }
    fn add(&mut self, x: f64) {
        if x >= ABS {
            self.e[self.n] = x;
            self.n += 1;
            self.trim();
        }
    }
    /// returns max, as a constant up to the number of blocks there can be
    fn set(&mut self, max: u64) -> u64 {
        let m = if max >= self.lim { max } else { conc(max) };
        self.max = if max >= self.lim { self.lim } else { m };
        self.trim();
        m
    }
}

/// arbitrary operations: energies in [1, 2] (pass every gate), energies below the absolute gate, any maximum
fn ops(first: u64, n: u64) {
    let mut m = if first == 0 { u64::MAX / 100 } else { first };
    let mut h = History::new(false, m as usize);
    let mut q = Newest::new(m, n);
    for _ in 0..n {
        match choice(4) {
            0 => {
                let x = fr(1.0, 2.0);
                h.add(x);
                q.add(x);
            }
            1 => {
                let x = fr(0.0, 1e-7);
                h.add(x);
                q.add(x);
            }
            2 => {
                m = q.set(int(1, u64::MAX));
                h.set_max_size(m as usize);
            }
            _ => {
                h.reset();
                q.n = 0;
            }
        }
    }
    match h.gating_block_count_and_energy() {
        Ok((k, s)) => {
            equ(k, q.n as u64, 1300);
            let mut t = 0.0;
            for i in 0..q.n {
                t += q.e[i];
            }
            eq(s, t, 1301);
        }
        Err(_) => equ(q.n as u64, 0, 1302),
    }
    cover(1303);
}

/// long histories around a maximum, then lowered and raised: c before, set, d after, set, e after
fn long(max: u64, c: u64, d: u64, e: u64) {
    let mut h = History::new(false, max as usize);
    let mut q = Newest::new(max, c + d + e);
    let mut i = 0;
    let mut go = |h: &mut History, q: &mut Newest, n: u64| {
        for _ in 0..n {
            // distinct energies within the gate; one of them arbitrary
            let x = if i == 3 { fr(1.0, 2.0) } else { 1.0 + i as f64 / 64.0 };
            i += 1;
            h.add(x);
            q.add(x);
        }
    };
    go(&mut h, &mut q, c);
    let m = q.set(int(1, u64::MAX));
    h.set_max_size(m as usize);
    go(&mut h, &mut q, d);
    let m = q.set(int(1, u64::MAX));
    h.set_max_size(m as usize);
    go(&mut h, &mut q, e);
    match h.gating_block_count_and_energy() {
        Ok((k, s)) => {
            equ(k, q.n as u64, 1310);
            let mut t = 0.0;
            for i in 0..q.n {
                t += q.e[i];
            }
            eq(s, t, 1311);
        }
        Err(_) => check(false, 1312),
    }
    cover(1313);
}

/// very long histories: n blocks, the oldest and the newest of arbitrary energy, then the maximum changed
fn huge(max: u64, n: u64, m2: u64) {
    let mut h = History::new(false, max as usize);
    let (x, y) = (fr(1.0, 2.0), fr(1.0, 2.0));
    let z = fr(0.0, 1e-7);
    h.add(x);
    for i in 2..n {
        h.add(if i % 2 == 0 { 1.25 } else { 1.75 });
        if i == 7 {
            h.add(z);
        }
    }
    h.add(y);
    let c = choice(2);
    let mut keep = if n < max { n } else { max };
    if c == 1 {
        h.set_max_size(m2 as usize);
        keep = if keep < m2 { keep } else { m2 };
    }
    let mut s = y;
    for i in (2..n).rev().take(keep as usize - 1) {
        s += if i % 2 == 0 { 1.25 } else { 1.75 };
    }
    if keep == n {
        s += x;
    }
    match h.gating_block_count_and_energy() {
        Ok((k, t)) => {
            equ(k, keep, 1320);
            eq(s, t, 1321);
        }
        Err(_) => check(false, 1322),
    }
    cover(1323);
}

/// an analyzer with concrete audio and arbitrary history lengths in ms
fn api(rate: u64, m: u64, a: u64, b: u64, c: u64) {
    let mut e = analyzer(1, rate, m);
    let n = (a + b + c) as usize;
    let mut d = [0.0f64; MAXS];
    for i in 0..n {
        d[i] = if i % 3 == 1 { 0.5 + i as f64 / 100.0 } else { -0.1 * (i % 7) as f64 };
    }
    let s = Stream::new(1, rate, e.channel_map(), &d[..n]);
    let hop = (rate as usize + 5) / 10;
    let (i, lra) = (mode(m).contains(Mode::I), mode(m).contains(Mode::LRA));
    let lo = if mode(m).contains(Mode::S) { 3000 } else { 400 };
    let mut g = Newest::new(u64::MAX, 17);
    let mut t = Newest::new(u64::MAX, 17);
    let mut at = 0;
    for (k, part) in [a, b, c].into_iter().enumerate() {
        for f in at..at + part as usize {
            let f = f + 1;
            if i && f >= 4 * hop && f % hop == 0 {
                g.add(s.energy(f, 4 * hop));
            }
            if lra && f >= 30 * hop && f % (10 * hop) == 0 {
                t.add(s.energy(f, 30 * hop));
            }
        }
        check(e.add_frames_f64(&d[at..at + part as usize]).is_ok(), 1320);
        at += part as usize;
        if k < 2 {
            // every history in ms, by the number of blocks it holds
            let top = n as u64 / (if i { hop as u64 } else { 10 * hop as u64 });
            let unit = if i { 100 } else { 3000 };
            let blocks = choice(top + 2);
            let h = if blocks > top {
                int((top + 1) * unit, 0xffff_ffff)
            } else {
                int(blocks * unit, blocks * unit + unit - 1)
            };
            check(e.set_max_history(h as u32).is_ok(), 1321);
            let h = if h < lo { lo } else { h };
            equ(e.max_history() as u64, h, 1322);
            let b = if blocks > top { top + 1 } else { blocks } * unit;
            let b = if b < lo { lo } else { b };
            if i {
                g.set(b / 100);
            }
            if lra {
                t.set(if i && blocks > top { 20 } else { b / 3000 });
            }
        }
    }
    let mut x = Gate::new();
    for k in 0..g.n {
        x.add(g.e[k]);
    }
    if i {
        eq(r(e.loudness_global()), x.loudness(), 1330);
        eq(r(e.relative_threshold()), x.threshold_lufs(), 1331);
        match e.gating_block_count_and_energy() {
            Some((k, y)) => {
                equ(k, x.gated().0, 1332);
                eq(y, x.gated().1, 1333);
            }
            None => equ(x.gated().0, 0, 1334),
        }
    }
    if lra {
        let mut x = Gate::new();
        for k in 0..t.n {
            x.add(t.e[k]);
        }
        eq(r(e.loudness_range()), x.range(), 1335);
    }
    cover(1336);
}

/// the maximum stays in force over reset, changed parameters and a changed window
fn after(rate: u64, m: u64, h: u64, a: u64, b: u64) {
    let mut e = analyzer(1, rate, m);
    // every length in ms, by the number of blocks it holds
    let unit = if mode(m).contains(Mode::LRA) && !mode(m).contains(Mode::I) { 3000 } else { 100 };
    let top = h;
    let k = choice(h + 1);
    let h = if k == h { int(h * unit, 0xffff_ffff) } else { int(k * unit, k * unit + unit - 1) };
    check(e.set_max_history(h as u32).is_ok(), 1360);
    let lo = if mode(m).contains(Mode::S) { 3000 } else { 400 };
    let h = if h < lo { lo } else { h };
    let mut d = [0.0f64; MAXS];
    let n = (a + b) as usize;
    for i in 0..n {
        d[i] = if i % 3 == 1 { 0.5 + i as f64 / 100.0 } else { -0.1 * (i % 7) as f64 };
    }
    let (i, lra) = (mode(m).contains(Mode::I), mode(m).contains(Mode::LRA));
    let mut g = Newest::new(u64::MAX, 60);
    let mut t = Newest::new(u64::MAX, 60);
    if i {
        g.set(if k < top { h / 100 } else { 60 });
    }
    if lra {
        t.set(if k < top { h / 3000 } else { 60 });
    }
    let a = a as usize;
    let s = Stream::new(1, rate, e.channel_map(), &d[..n]);
    let mut blocks = |s: &Stream, off: usize, from: usize, to: usize, rate: u64, g: &mut Newest, t: &mut Newest| {
        let hop = (rate as usize + 5) / 10;
        for f in from + 1..to + 1 {
            let k = f - from;
            if i && k >= 4 * hop && k % hop == 0 {
                g.add(s.energy(f - off, 4 * hop));
            }
            if lra && k >= 30 * hop && k % (10 * hop) == 0 {
                t.add(s.energy(f - off, 30 * hop));
            }
        }
    };
    blocks(&s, 0, 0, a, rate, &mut g, &mut t);
    check(e.add_frames_f64(&d[..a]).is_ok(), 1361);
    match choice(5) {
        0 => {
            e.reset();
            g.n = 0;
            t.n = 0;
            let s = Stream::new(1, rate, e.channel_map(), &d[a..n]);
            blocks(&s, a, a, n, rate, &mut g, &mut t);
        }
        1 => {
            // two frames fewer or more per second: other coefficients, another step
            check(e.change_parameters(1, (rate + 9) as u32).is_ok(), 1362);
            let s = Stream::new(1, rate + 9, e.channel_map(), &d[a..n]);
            blocks(&s, a, a, n, rate + 9, &mut g, &mut t);
        }
        2 => {
            check(e.set_max_window(if mode(m).contains(Mode::S) { 4000 } else { 700 }).is_ok(), 1363);
            blocks(&s, 0, a, n, rate, &mut g, &mut t);
        }
        3 => {
            // raising the maximum and lowering it again
            check(e.set_max_history(0xffff_ffff).is_ok(), 1364);
            check(e.set_max_history(h as u32).is_ok(), 1365);
            e.reset();
            check(e.set_max_history(h as u32).is_ok(), 1366);
            g.n = 0;
            t.n = 0;
            let s = Stream::new(1, rate, e.channel_map(), &d[a..n]);
            blocks(&s, a, a, n, rate, &mut g, &mut t);
        }
        _ => {
            check(e.change_parameters(2, rate as u32).is_ok(), 1367);
            check(e.change_parameters(1, rate as u32).is_ok(), 1367);
            let s = Stream::new(1, rate, e.channel_map(), &d[a..n]);
            blocks(&s, a, a, n, rate, &mut g, &mut t);
        }
    }
    check(e.add_frames_f64(&d[a..n]).is_ok(), 1368);
    let mut x = Gate::new();
    for k in 0..g.n {
        x.add(g.e[k]);
    }
    if i {
        match e.gating_block_count_and_energy() {
            Some((k, y)) => {
                equ(k, x.gated().0, 1370);
                eq(y, x.gated().1, 1371);
            }
            None => equ(x.gated().0, 0, 1372),
        }
        eq(r(e.relative_threshold()), x.threshold_lufs(), 1373);
    }
    if lra {
        let mut x = Gate::new();
        for k in 0..t.n {
            x.add(t.e[k]);
        }
        eq(r(e.loudness_range()), x.range(), 1374);
    }
    cover(1375);
}

/// in histogram mode the maximum history has no effect
fn hist(rate: u64, m: u64, a: u64, b: u64) {
    let mut e = analyzer(1, rate, m);
    let mut o = analyzer(1, rate, m);
    let n = (a + b) as usize;
    let mut d = [0.0f64; MAXS];
    for i in 0..n {
        d[i] = if i % 3 == 1 { 0.5 + i as f64 / 100.0 } else { -0.1 * (i % 7) as f64 };
    }
    for (k, part) in [&d[..a as usize], &d[a as usize..n]].into_iter().enumerate() {
        check(e.add_frames_f64(part).is_ok(), 1340);
        check(o.add_frames_f64(part).is_ok(), 1341);
        if k == 0 || choice(2) == 0 {
            check(e.set_max_history(int(0, 0xffff_ffff) as u32).is_ok(), 1342);
        }
    }
    same_all(&e, &o, true, 1350);
}

harnesses! {
    c13_ops(first, n) ops(first, n);
    c13_huge(max, n, m2) huge(max, n, m2);
    c13_long(max, c, d, e) long(max, c, d, e);
    c13_api(rate, m, a, b, c) api(rate, m, a, b, c);
    c13_after(rate, m, h, a, b) after(rate, m, h, a, b);
    c13_hist(rate, m, a, b) hist(rate, m, a, b);
}
