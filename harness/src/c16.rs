//! C16: seeding warms up the filters and is otherwise unobservable
use crate::api::*;
use crate::harnesses;
use crate::util::*;
use ebur128::{EbuR128, Mode};

fn feed<T: Samp>(e: &mut EbuR128, d: &[T], cut: usize) {
    check(T::add(e, &d[..cut]).is_ok(), 1600);
    check(T::add(e, &d[cut..]).is_ok(), 1601);
}

/// x frames are added, a seeded, b added in two calls (x, b: pz/bz silent then pn/bn arbitrary frames)
fn seed(ch: u64, rate: u64, m: u64, x: u64, a: u64, bn: u64, bz: u64, bt: u64) {
    let c = ch as usize;
    let mut e = analyzer(ch, rate, m);
    let (x, a) = (x as usize, a as usize);
    let b = (bn + bz + bt) as usize;
    let mut d = [0.0f64; MAXS];
    // x concrete, a arbitrary, b: silence, arbitrary, silence
    for i in 0..x * c {
        d[i] = if i % 3 == 0 { 0.25 } else { -0.0625 * (i % 4) as f64 };
    }
    fill(&mut d[x * c..(x + a) * c]);
    fill(&mut d[(x + a + bz as usize) * c..(x + a + bz as usize + bn as usize) * c]);
    let end = x + a + b;
    check(e.add_frames_f64(&d[..x * c]).is_ok(), 1602);
    check(e.seed_frames_f64(&d[x * c..(x + a) * c]).is_ok(), 1603);
    let cut = if bn > 2 { (bz + 2) as usize } else { b };
    feed(&mut e, &d[(x + a) * c..end * c], cut * c);
    // the filter ran over everything, the seeded frames are not part of the signal
    let t = Stream::new(ch, rate, e.channel_map(), &d[..end * c]);
    let mut s = Stream { y: vec![0.0; (x + b) * c], n: x + b, map: t.map, ch: c };
    for k in 0..c {
        for i in 0..x {
            s.y[k * s.n + i] = t.y[k * t.n + i];
        }
        for i in x..x + b {
            s.y[k * s.n + i] = t.y[k * t.n + i + a];
        }
    }
    let hop = (rate as usize + 5) / 10;
    let mut g = Gate::new();
    match choice(3) {
        0 => {
            eq(r(e.loudness_momentary()), lufs(s.energy(s.n, 4 * hop)), 1610);
            if mode(m).contains(Mode::S) {
                eq(r(e.loudness_shortterm()), lufs(s.energy(s.n, 30 * hop)), 1611);
            }
            cover(1612);
        }
        1 if mode(m).contains(Mode::I) => {
            let mut end = 4 * hop;
            while end <= s.n {
                g.add(s.energy(end, 4 * hop));
                end += hop;
            }
            eq(r(e.loudness_global()), g.loudness(), 1613);
            eq(r(e.relative_threshold()), g.threshold_lufs(), 1614);
            match e.gating_block_count_and_energy() {
                Some((n, y)) => {
                    equ(n, g.gated().0, 1615);
                    eq(y, g.gated().1, 1616);
                }
                None => equ(g.gated().0, 0, 1617),
            }
            cover(1618);
        }
        2 if mode(m).contains(Mode::LRA) => {
            let mut end = 30 * hop;
            while end <= s.n {
                g.add(s.energy(end, 30 * hop));
                end += 10 * hop;
            }
            eq(r(e.loudness_range()), g.range(), 1619);
            cover(1620);
        }
        _ => (),
    }
}

/// a long seed in one call or two: x frames of audio added, a seeded (the last two arbitrary), b added
fn warm<T: Samp>(ch: u64, rate: u64, m: u64, x: u64, a: u64, b: u64) {
    let c = ch as usize;
    let (x, a, b) = (x as usize, a as usize, b as usize);
    let end = x + a + b;
    let mut d = vec![T::default(); end * c];
    for i in 0..end * c {
        d[i] = T::level(i);
    }
    fill(&mut d[(x + a - 2) * c..(x + a) * c]);
    let mut e = analyzer(ch, rate, m);
    check(T::add(&mut e, &d[..x * c]).is_ok(), 1690);
    let cut = if choice(2) == 0 { x } else { x + a / 3 };
    check(T::seed(&mut e, &d[x * c..cut * c]).is_ok(), 1691);
    check(T::seed(&mut e, &d[cut * c..(x + a) * c]).is_ok(), 1691);
    check(T::add(&mut e, &d[(x + a) * c..]).is_ok(), 1692);
    if choice(2) == 0 {
        let f: Vec<f64> = d.iter().map(|v| v.to_f64()).collect();
        let t = Stream::new(ch, rate, e.channel_map(), &f);
        let mut s = Stream { y: vec![0.0; (x + b) * c], n: x + b, map: t.map, ch: c };
        for k in 0..c {
            for i in 0..x + b {
                s.y[k * s.n + i] = t.y[k * t.n + if i < x { i } else { i + a }];
            }
        }
        let hop = (rate as usize + 5) / 10;
        eq(r(e.loudness_momentary()), lufs(s.energy(s.n, 4 * hop)), 1693);
        cover(1693);
    } else {
        let mut o = analyzer(ch, rate, m);
        check(T::add(&mut o, &d[..(x + a) * c]).is_ok(), 1694);
        check(T::add(&mut o, &d[(x + a) * c..]).is_ok(), 1694);
        for k in 0..ch as u32 {
            eq(query(&e, 10, k), query(&o, 10, k), 1695);
            eq(query(&e, 11, k), query(&o, 11, k), 1696);
        }
        cover(1696);
    }
}

/// peaks after seeding: those of the last call of an analyzer that was fed a before
fn peaks<T: Samp>(ch: u64, rate: u64, m: u64, a: u64, b: u64) {
    let c = ch as usize;
    let mut e = analyzer(ch, rate, m);
    let mut o = analyzer(ch, rate, m);
    let mut d = [T::default(); MAXS];
    let (a, b) = (a as usize * c, b as usize * c);
    fill(&mut d[..a + b]);
    check(T::seed(&mut e, &d[..a]).is_ok(), 1630);
    check(T::add(&mut o, &d[..a]).is_ok(), 1631);
    for k in 0..ch as u32 {
        eq(query(&e, 8, k), 0.0, 1632);
        eq(query(&e, 9, k), if mode(m).contains(Mode::TRUE_PEAK) { 0.0 } else { 2e301 }, 1633);
    }
    check(T::add(&mut e, &d[a..a + b]).is_ok(), 1634);
    check(T::add(&mut o, &d[a..a + b]).is_ok(), 1635);
    for k in 0..ch as u32 {
        eq(query(&e, 8, k), query(&o, 10, k), 1636);
        eq(query(&e, 9, k), query(&o, 11, k), 1637);
        eq(query(&e, 10, k), query(&o, 10, k), 1638);
        eq(query(&e, 11, k), query(&o, 11, k), 1639);
    }
    cover(1640);
}

/// seeding changes no measurement of what was added before
fn quiet<T: Samp>(ch: u64, rate: u64, m: u64, p: u64, n: u64, q: u64, a: u64) {
    let mut e = analyzer(ch, rate, m);
    let mut d = [T::default(); MAXS];
    let len = signal(&mut d, ch as usize, p as usize, n as usize, q as usize);
    check(T::add(&mut e, &d[..len]).is_ok(), 1650);
    let mut s = [T::default(); 256];
    fill(&mut s[..a as usize * ch as usize]);
    let (g, k) = groups(e.mode());
    let g = GROUPS[g[choice(k as u64) as usize]];
    let mut v = [0.0; 64];
    let mut i = 0;
    for &k in g {
        for c in 0..ch as u32 {
            v[i] = query(&e, k, c);
            i += 1;
        }
    }
    check(T::seed(&mut e, &s[..a as usize * ch as usize]).is_ok(), 1651);
    i = 0;
    for &k in g {
        for c in 0..ch as u32 {
            eq(query(&e, k, c), v[i], 1652 + k);
            i += 1;
        }
    }
    cover(1665);
}

/// layouts and sample types of the seed are equivalent
fn layout<T: Samp>(ch: u64, rate: u64, m: u64, a: u64, b: u64) {
    let c = ch as usize;
    let mut x = [T::default(); 256];
    let n = a as usize;
    fill(&mut x[..n * c]);
    let mut pl = [[T::default(); 64]; 8];
    let mut y = [0.0f64; 256];
    for i in 0..n {
        for k in 0..c {
            pl[k][i] = x[i * c + k];
            y[i * c + k] = x[i * c + k].to_f64();
        }
    }
    let (mut e, mut p, mut f) = (analyzer(ch, rate, m), analyzer(ch, rate, m), analyzer(ch, rate, m));
    let planes: [&[T]; 8] = [&pl[0][..n], &pl[1][..n], &pl[2][..n], &pl[3][..n], &pl[4][..n], &pl[5][..n], &pl[6][..n], &pl[7][..n]];
    check(T::seed(&mut e, &x[..n * c]).is_ok(), 1670);
    check(T::seed_planar(&mut p, &planes[..c]).is_ok(), 1671);
    check(f.seed_frames_f64(&y[..n * c]).is_ok(), 1672);
    let mut d = [0.0f64; MAXS];
    for i in 0..b as usize * c {
        d[i] = if i % 5 == 2 { 0.5 } else { 0.0 };
    }
    for e in [&mut e, &mut p, &mut f] {
        check(e.add_frames_f64(&d[..b as usize * c]).is_ok(), 1673);
    }
    if choice(2) == 0 {
        same_all(&e, &p, true, 1674);
    } else {
        same_all(&e, &f, true, 1674);
    }
}

/// seeds that do not match the configuration are rejected and leave no trace
fn invalid(ch: u64, rate: u64, m: u64) {
    let c = ch as usize;
    let (mut e, mut o) = (analyzer(ch, rate, m), analyzer(ch, rate, m));
    let mut d = [0.0f64; 64];
    fill(&mut d[..4]);
    d[7] = 0.5;
    let pl: [&[f64]; 9] = [&d[..5]; 9];
    let mut odd = pl;
    odd[c - 1] = &d[..4];
    match choice(5) {
        0 if c > 1 => check(e.seed_frames_f64(&d[..2 * c - 1]).is_err(), 1690),
        1 if c > 1 => check(e.seed_frames_planar_f64(&pl[..c - 1]).is_err(), 1691),
        2 => check(e.seed_frames_planar_f64(&pl[..c + 1]).is_err(), 1692),
        3 if c > 1 => check(e.seed_frames_planar_f64(&odd[..c]).is_err(), 1693),
        _ => {
            check(e.seed_frames_f64(&[]).is_ok(), 1694);
            let none: [&[f64]; 9] = [&[]; 9];
            check(e.seed_frames_planar_f64(&none[..c]).is_ok(), 1695);
            check(e.seed_frames_planar_f64(&[]).is_err(), 1696);
        }
    }
    let z = [0.0f64; 80];
    for e in [&mut e, &mut o] {
        check(e.add_frames_f64(&z[..10 * c]).is_ok(), 1697);
    }
    same_all(&e, &o, true, 1698);
}

harnesses! {
    c16_warm_f64(ch, rate, m, x, a, b) warm::<f64>(ch, rate, m, x, a, b);
    c16_warm_i16(ch, rate, m, x, a, b) warm::<i16>(ch, rate, m, x, a, b);
    c16_seed(ch, rate, m, x, a, bn, bz, bt) seed(ch, rate, m, x, a, bn, bz, bt);
    c16_peaks_f64(ch, rate, m, a, b) peaks::<f64>(ch, rate, m, a, b);
    c16_peaks_f32(ch, rate, m, a, b) peaks::<f32>(ch, rate, m, a, b);
    c16_peaks_i16(ch, rate, m, a, b) peaks::<i16>(ch, rate, m, a, b);
    c16_peaks_i32(ch, rate, m, a, b) peaks::<i32>(ch, rate, m, a, b);
    c16_quiet_f64(ch, rate, m, p, n, q, a) quiet::<f64>(ch, rate, m, p, n, q, a);
    c16_quiet_i16(ch, rate, m, p, n, q, a) quiet::<i16>(ch, rate, m, p, n, q, a);
    c16_layout_f64(ch, rate, m, a, b) layout::<f64>(ch, rate, m, a, b);
    c16_layout_f32(ch, rate, m, a, b) layout::<f32>(ch, rate, m, a, b);
    c16_layout_i16(ch, rate, m, a, b) layout::<i16>(ch, rate, m, a, b);
    c16_layout_i32(ch, rate, m, a, b) layout::<i32>(ch, rate, m, a, b);
    c16_invalid(ch, rate, m) invalid(ch, rate, m);
}
