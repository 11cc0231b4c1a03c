//! The K-weighting filter is the cascade of the two BS.1770 biquads, per channel and without gaps.
use crate::api::*;
use crate::util::*;
use ebur128::filter::Filter;
use ebur128::{Channel, Interleaved, Planar};

/// biquad b, a with a[0] = 1
struct Biquad {
    b: [f64; 3],
    a: [f64; 3],
    x: [f64; 2],
    y: [f64; 2],
}

impl Biquad {
    fn new(b: [f64; 3], a: [f64; 3]) -> Biquad {
        Biquad { b, a, x: [0.0; 2], y: [0.0; 2] }
    }
    fn step(&mut self, x: f64) -> f64 {
        let y = self.b[0] * x + self.b[1] * self.x[0] + self.b[2] * self.x[1] - self.a[1] * self.y[0] - self.a[2] * self.y[1];
        self.x = [x, self.x[0]];
        self.y = [y, self.y[0]];
        y
    }
}

const VH: f64 = 1.5848647011308556; // 10^(3.999843853973347 / 20)
const VB: f64 = 1.2587209302325617; // VH^0.4996667741545416

/// the shelf for K = tan(pi f0 / rate), numerator and denominator times the same factor
fn shelf(k: f64) -> ([f64; 3], [f64; 3]) {
    let q = 0.7071752369554196;
    let n = 1.0 + k / q + k * k;
    ([VH + VB * k / q + k * k, 2.0 * (k * k - VH), VH - VB * k / q + k * k], [n, 2.0 * (k * k - 1.0), 1.0 - k / q + k * k])
}

/// the high-pass (its numerator is used as it is)
fn highpass(k: f64) -> ([f64; 3], [f64; 3]) {
    let q = 0.5003270373238773;
    let n = 1.0 + k / q + k * k;
    ([1.0, -2.0, 1.0], [n, 2.0 * (k * k - 1.0), 1.0 - k / q + k * k])
}

fn stages(k: f64, l: f64) -> (Biquad, Biquad) {
    let (b, a) = shelf(k);
    let s = Biquad::new([b[0] / a[0], b[1] / a[0], b[2] / a[0]], [1.0, a[1] / a[0], a[2] / a[0]]);
    let (b, a) = highpass(l);
    (s, Biquad::new(b, [1.0, a[1] / a[0], a[2] / a[0]]))
}

fn cascade(rate: f64) -> (Biquad, Biquad) {
    let pi = std::f64::consts::PI;
    stages((pi * 1681.974450955533 / rate).tan(), (pi * 38.13547087602444 / rate).tan())
}

fn maps(ch: usize, unused: u64) -> [Channel; 64] {
    let mut m = [Channel::Left; 64];
    m[0] = Channel::DualMono;
    m[1] = Channel::LeftSurround;
    if (unused as usize) < ch {
        m[unused as usize] = Channel::Unused;
    }
    m
}

/// the output for n arbitrary frames in two calls, next to what the reference makes of them
fn compare(ch: u64, rate: u64, unused: u64, n: u64, cut: u64, planar: bool, r: impl Fn() -> (Biquad, Biquad)) {
    let ch = ch as usize;
    let n = n as usize;
    let cut = cut as usize;
    let mut d = [0.0f64; 512];
    fill(&mut d[..n * ch]);
    let mut y = [0.0f64; 512];
    let map = maps(ch, unused);
    let mut f = Filter::new(rate as u32, ch as u32, false, false);
    if planar {
        let mut p = [0.0f64; 512];
        for i in 0..n {
            for c in 0..ch {
                p[c * n + i] = d[i * ch + c];
            }
        }
        let mut planes: [&[f64]; 64] = [&[]; 64];
        for c in 0..ch {
            planes[c] = &p[c * n..c * n + cut];
        }
        f.process(Planar::new(&planes[..ch]).unwrap(), &mut y[..n * ch], 0, &map[..ch]);
        for c in 0..ch {
            planes[c] = &p[c * n + cut..c * n + n];
        }
        f.process(Planar::new(&planes[..ch]).unwrap(), &mut y[..n * ch], cut, &map[..ch]);
    } else {
        f.process(Interleaved::new(&d[..cut * ch], ch).unwrap(), &mut y[..n * ch], 0, &map[..ch]);
        f.process(Interleaved::new(&d[cut * ch..n * ch], ch).unwrap(), &mut y[..n * ch], cut, &map[..ch]);
    }
    for c in 0..ch {
        if map[c] == Channel::Unused {
            continue;
        }
        let (mut s, mut h) = r();
        for i in 0..n {
            let v = h.step(s.step(d[i * ch + c]));
            eq(y[c * n + i], v, 1900);
        }
    }
    cover(1901);
}

fn reference(ch: u64, rate: u64, unused: u64, n: u64, cut: u64) {
    compare(ch, rate, unused, n, cut, choice(2) == 1, || cascade(rate as f64));
}

fn any_rate(lo: u64, hi: u64, n: u64, cut: u64) {
    let rate = int(lo, hi);
    compare(1, rate, 64, n, cut, false, || cascade(rate as u32 as f64));
}

/// the coefficients printed in BS.1770 for 48 kHz
fn table(ch: u64, n: u64, cut: u64) {
    compare(ch, 48000, 64, n, cut, false, || {
        (
            Biquad::new([1.53512485958697, -2.69169618940638, 1.19839281085285], [1.0, -1.69065929318241, 0.73248077421585]),
            Biquad::new([1.0, -2.0, 1.0], [1.0, -1.99004745483398, 0.99007225036621]),
        )
    });
}

/// the design the filters are compared with: for every K > 0 (Nyquist above the corner frequency) both stages are
/// stable (Jury's criterion), the cascade blocks DC, and the shelf has gain 1 at DC and 10^(G/20) at Nyquist
fn design() {
    let k = fr(0.0, 1e9);
    assume(k > 0.0);
    for (b, a, shelving) in [(shelf(k).0, shelf(k).1, true), (highpass(k).0, highpass(k).1, false)] {
        check(a[0] > 0.0, 1910);
        check(a[2] < a[0], 1911);
        check(-a[0] < a[2], 1912);
        check(a[1] < a[0] + a[2], 1913);
        check(-(a[0] + a[2]) < a[1], 1914);
        if shelving {
            eq(b[0] + b[1] + b[2], a[0] + a[1] + a[2], 1917);
            eq(b[0] - b[1] + b[2], VH * 2.0 + VH * 2.0, 1918);
            eq(a[0] - a[1] + a[2], 4.0, 1919);
        } else {
            eq(b[0] + b[1] + b[2], 0.0, 1920);
            eq(b[0] - b[1] + b[2], 4.0, 1921);
            eq(a[0] - a[1] + a[2], 4.0, 1922);
        }
    }
    cover(1923);
}

/// each channel of a filter for several channels works as a filter of its own, bit for bit
fn alone<T: Samp + dasp>(ch: u64, rate: u64, unused: u64, seed: u64, n: u64, cut: u64) {
    let ch = ch as usize;
    let n = n as usize;
    let cut = cut as usize;
    let seed = seed as usize;
    let mut d = [T::default(); 512];
    let all = (n + seed) * ch;
    fill(&mut d[..all]);
    let map = maps(ch, unused);
    let mut f = Filter::new(rate as u32, ch as u32, false, false);
    let mut y = [0.0f64; 512];
    let m = [seed * ch, (seed + cut) * ch, all];
    f.seed(Interleaved::new(&d[..m[0]], ch).unwrap(), &map[..ch]);
    f.process(Interleaved::new(&d[m[0]..m[1]], ch).unwrap(), &mut y[..n * ch], 0, &map[..ch]);
    f.process(Interleaved::new(&d[m[1]..m[2]], ch).unwrap(), &mut y[..n * ch], cut, &map[..ch]);
    let c = choice(ch as u64) as usize;
    if map[c] == Channel::Unused {
        return;
    }
    let mut p = [T::default(); 512];
    for i in 0..n + seed {
        p[i] = d[i * ch + c];
    }
    let mut g = Filter::new(rate as u32, 1, false, false);
    let mut z = [0.0f64; 512];
    g.seed(Interleaved::new(&p[..seed], 1).unwrap(), &[Channel::Center]);
    g.process(Interleaved::new(&p[seed..seed + n], 1).unwrap(), &mut z[..n], 0, &[Channel::Center]);
    for i in 0..n {
        eq(y[c * n + i], z[i], 1930);
    }
    // and a reset filter starts from silence
    g.reset();
    let mut w = [0.0f64; 512];
    let mut x = [0.0f64; 512];
    g.process(Interleaved::new(&p[seed..seed + n], 1).unwrap(), &mut w[..n], 0, &[Channel::Center]);
    let mut h = Filter::new(rate as u32, 1, false, false);
    h.process(Interleaved::new(&p[seed..seed + n], 1).unwrap(), &mut x[..n], 0, &[Channel::Center]);
    for i in 0..n {
        eq(w[i], x[i], 1931);
    }
    cover(1932);
}

trait dasp: ebur128::utils::Sample {}
impl<T: ebur128::utils::Sample> dasp for T {}

harnesses! {
    c19_reference(ch, rate, unused, n, cut) reference(ch, rate, unused, n, cut);
    c19_any_rate(lo, hi, n, cut) any_rate(lo, hi, n, cut);
    c19_design() design();
    c19_table(ch, n, cut) table(ch, n, cut);
    c19_alone_f64(ch, rate, unused, seed, n, cut) alone::<f64>(ch, rate, unused, seed, n, cut);
    c19_alone_f32(ch, rate, unused, seed, n, cut) alone::<f32>(ch, rate, unused, seed, n, cut);
    c19_alone_i16(ch, rate, unused, seed, n, cut) alone::<i16>(ch, rate, unused, seed, n, cut);
    c19_alone_i32(ch, rate, unused, seed, n, cut) alone::<i32>(ch, rate, unused, seed, n, cut);
}
