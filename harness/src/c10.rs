//! C10: the channel map decides the weight of each channel and nothing else
use crate::api::*;
use crate::harnesses;
use crate::util::*;
use ebur128::{Channel, EbuR128};

/// set position p of channel k one way or the other; false if it must be refused
fn put(e: &mut EbuR128, k: usize, p: Channel) -> bool {
    let ch = e.channels() as usize;
    let bad = p == Channel::DualMono && ch != 1;
    let ok = if choice(2) == 0 {
        e.set_channel(k as u32, p)
    } else {
        let mut m = [Channel::Unused; 64];
        m[..ch].copy_from_slice(e.channel_map());
        m[k] = p;
        e.set_channel_map(&m[..ch])
    };
    equ(code(&ok), if bad { 3 } else { 0 }, 1000);
    !bad
}

/// one channel at any position, the others at their defaults
fn weights(ch: u64, rate: u64, m: u64, p: u64, n: u64, q: u64) {
    let chn = ch as usize;
    let mut e = analyzer(ch, rate, m);
    let mut map = [Channel::Unused; 64];
    map[..chn].copy_from_slice(e.channel_map());
    let k = choice(ch) as usize;
    let pos = CHANNELS[choice(32) as usize];
    if put(&mut e, k, pos) {
        map[k] = pos;
    }
    for c in 0..chn {
        equ(e.channel_map()[c] as u64, map[c] as u64, 1001);
    }
    let mut d = [0.0f64; MAXS];
    let len = signal(&mut d, chn, p as usize, n as usize, q as usize);
    check(e.add_frames_f64(&d[..len]).is_ok(), 1002);
    let s = Stream::new(ch, rate, &map[..chn], &d[..len]);
    let hop = (rate as usize + 5) / 10;
    eq(r(e.loudness_momentary()), lufs(s.energy(s.n, 4 * hop)), 1003);
    if mode(m).contains(ebur128::Mode::S) {
        eq(r(e.loudness_shortterm()), lufs(s.energy(s.n, 30 * hop)), 1004);
    }
    if mode(m).contains(ebur128::Mode::I) {
        let x = s.energy(4 * hop, 4 * hop);
        match e.gating_block_count_and_energy() {
            Some((1, y)) => {
                check(!(x < ABS), 1005);
                eq(y, x, 1006);
            }
            None => check(!(x >= ABS), 1007),
            _ => check(false, 1008),
        }
    }
    cover(1009);
}

/// exchanging two channels with their positions changes nothing
fn permute(ch: u64, rate: u64, m: u64, n: u64) {
    let chn = ch as usize;
    let mut a = analyzer(ch, rate, m);
    let mut b = analyzer(ch, rate, m);
    let i = choice(ch) as usize;
    let j = choice(ch) as usize;
    let p = CHANNELS[choice(32) as usize];
    if p == Channel::DualMono && ch != 1 {
        return;
    }
    check(a.set_channel(i as u32, p).is_ok(), 1010);
    let mut map = [Channel::Unused; 64];
    map[..chn].copy_from_slice(a.channel_map());
    map.swap(i, j);
    check(b.set_channel_map(&map[..chn]).is_ok(), 1011);
    let mut d = [0.0f64; MAXS];
    let mut o = [0.0f64; MAXS];
    let n = n as usize;
    fill(&mut d[..n * chn]);
    for f in 0..n {
        for c in 0..chn {
            let k = if c == i { j } else if c == j { i } else { c };
            o[f * chn + k] = d[f * chn + c];
        }
    }
    check(a.add_frames_f64(&d[..n * chn]).is_ok(), 1012);
    check(b.add_frames_f64(&o[..n * chn]).is_ok(), 1013);
    for k in [0, 1, 3, 4, 6, 7] {
        eq(query(&a, k, 0), query(&b, k, 0), 1014);
    }
    cover(1014);
}

/// the map is changed after n1 frames: used channels count from then on, with the new weights
fn midway(ch: u64, rate: u64, m: u64, n1: u64, n2: u64) {
    const P: [Channel; 7] = [Channel::Unused, Channel::Left, Channel::LeftSurround, Channel::Mm090, Channel::Up000, Channel::Mp135, Channel::DualMono];
    let chn = ch as usize;
    let mut e = analyzer(ch, rate, m);
    let k = choice(ch) as usize;
    let np = if ch == 1 { 7 } else { 6 };
    let p1 = P[choice(np) as usize];
    let p2 = P[choice(np) as usize];
    let (n1, n2) = (n1 as usize, n2 as usize);
    let mut d = [0.0f64; MAXS];
    fill(&mut d[..(n1 + n2) * chn]);
    check(put(&mut e, k, p1), 1020);
    let mut m1 = [Channel::Unused; 64];
    m1[..chn].copy_from_slice(e.channel_map());
    check(e.add_frames_f64(&d[..n1 * chn]).is_ok(), 1021);
    check(put(&mut e, k, p2), 1022);
    let mut m2 = [Channel::Unused; 64];
    m2[..chn].copy_from_slice(e.channel_map());
    check(e.add_frames_f64(&d[n1 * chn..(n1 + n2) * chn]).is_ok(), 1023);
    // reference: each channel filtered while it is used, silent otherwise
    let mut s = Stream { y: vec![0.0; (n1 + n2) * chn], n: n1 + n2, map: m2, ch: chn };
    let mut f = ebur128::filter::Filter::new(rate as u32, ch as u32, false, false);
    let n = n1 + n2;
    f.process(ebur128::Interleaved::new(&d[..n1 * chn], chn).unwrap(), &mut s.y[..n * chn], 0, &m1[..chn]);
    f.process(ebur128::Interleaved::new(&d[n1 * chn..n * chn], chn).unwrap(), &mut s.y[..n * chn], n1, &m2[..chn]);
    for c in 0..chn {
        for i in 0..n {
            if (if i < n1 { m1[c] } else { m2[c] }) == Channel::Unused {
                s.y[c * n + i] = 0.0;
            }
        }
    }
    let hop = (rate as usize + 5) / 10;
    eq(r(e.loudness_momentary()), lufs(s.energy(n, 4 * hop)), 1024);
    cover(1024);
}

/// every index and position: refused exactly when it must be, and then without effect
fn index(ch: u64) {
    let chn = ch as usize;
    let mut e = analyzer(ch, 16, 1);
    let mut map = [Channel::Unused; 64];
    map[..chn].copy_from_slice(e.channel_map());
    let k = int(0, 0xffff_ffff);
    let pos = CHANNELS[choice(32) as usize];
    let bad = k >= ch || (pos == Channel::DualMono && ch != 1);
    let ok = e.set_channel(k as u32, pos);
    equ(code(&ok), if bad { 3 } else { 0 }, 1030);
    for c in 0..chn {
        let x = if !bad && c as u64 == k { pos } else { map[c] };
        equ(e.channel_map()[c] as u64, x as u64, 1031);
    }
    cover(if bad { 1032 } else { 1033 });
}

/// a position set again, in either way: the last one counts
fn twice(ch: u64, other: u64) {
    let chn = ch as usize;
    let mut e = analyzer(ch, 16, 1);
    let mut map = [Channel::Unused; 64];
    map[..chn].copy_from_slice(e.channel_map());
    let k = choice(ch) as usize;
    // every position after some, or some after every one
    let (i, j) = (choice(32) as usize, [0, 1, 4, 5, 6, other as usize][choice(6) as usize]);
    let (i, j) = if choice(2) == 0 { (i, j) } else { (j, i) };
    for pos in [CHANNELS[i], CHANNELS[j]] {
        let bad = pos == Channel::DualMono && ch != 1;
        if put(&mut e, k, pos) {
            check(!bad, 1045);
            map[k] = pos;
        } else {
            check(bad, 1046);
        }
        for c in 0..chn {
            equ(e.channel_map()[c] as u64, map[c] as u64, 1047);
        }
    }
    cover(1047);
}

fn length(ch: u64, max: u64) {
    let chn = ch as usize;
    let mut e = analyzer(ch, 16, 1);
    let mut map = [Channel::Unused; 64];
    map[..chn].copy_from_slice(e.channel_map());
    let l = choice(max + 1) as usize;
    let mut x = [Channel::Up045; 64];
    let pos = CHANNELS[choice(32) as usize];
    if l > 0 {
        x[choice(l as u64) as usize] = pos;
    }
    let bad = l != chn || (pos == Channel::DualMono && ch != 1);
    let ok = e.set_channel_map(&x[..l]);
    equ(code(&ok), if bad { 3 } else { 0 }, 1040);
    for c in 0..chn {
        equ(e.channel_map()[c] as u64, if bad { map[c] } else { x[c] } as u64, 1041);
    }
    cover(if bad { 1042 } else { 1043 });
}

/// the default map for every number of channels, also after changing it
fn default() {
    let ch = int(1, 64);
    let how = choice(3);
    let mut e = if how == 0 { analyzer(conc(ch), 16, 1) } else { analyzer(if how == 1 { 2 } else { 6 }, 16, 1) };
    if how > 0 {
        let c = conc(ch);
        if c == e.channels() as u64 {
            return;
        }
        check(e.set_channel(1, Channel::Up045).is_ok(), 1050);
        check(e.change_parameters(c as u32, 16).is_ok(), 1051);
    }
    let ch = e.channels() as usize;
    equ(e.channel_map().len() as u64, ch as u64, 1052);
    for c in 0..ch {
        let x = match (ch, c) {
            (4, 2) => Channel::LeftSurround,
            (4, 3) => Channel::RightSurround,
            (5, 3) => Channel::LeftSurround,
            (5, 4) => Channel::RightSurround,
            (_, 0) => Channel::Left,
            (_, 1) => Channel::Right,
            (_, 2) => Channel::Center,
            (_, 4) => Channel::LeftSurround,
            (_, 5) => Channel::RightSurround,
            _ => Channel::Unused,
        };
        equ(e.channel_map()[c] as u64, x as u64, 1053);
    }
    cover(1053);
}

harnesses! {
    c10_weights(ch, rate, m, p, n, q) weights(ch, rate, m, p, n, q);
    c10_permute(ch, rate, m, n) permute(ch, rate, m, n);
    c10_midway(ch, rate, m, n1, n2) midway(ch, rate, m, n1, n2);
    c10_twice(ch, other) twice(ch, other);
    c10_index(ch) index(ch);
    c10_length(ch, max) length(ch, max);
    c10_default() default();
}
