use crate::api::*;
use ebur128::{Channel, EbuR128, Error, Mode};

pub fn mode(bits: u64) -> Mode {
    Mode::from_bits_truncate(bits as u8)
}

pub const MAXS: usize = 2048;

pub fn analyzer(ch: u64, rate: u64, m: u64) -> EbuR128 {
    EbuR128::new(ch as u32, rate as u32, mode(m)).unwrap()
}

/// result of a query as one number (errors become distinct huge values)
pub fn r(x: Result<f64, Error>) -> f64 {
    match x {
        Ok(v) => v,
        Err(Error::NoMem) => 1e301,
        Err(Error::InvalidMode) => 2e301,
        Err(Error::InvalidChannelIndex) => 3e301,
    }
}

pub fn code<T>(x: &Result<T, Error>) -> u64 {
    match x {
        Ok(_) => 0,
        Err(Error::NoMem) => 1,
        Err(Error::InvalidMode) => 2,
        Err(Error::InvalidChannelIndex) => 3,
    }
}

pub const NQ: u64 = 12;

/// the k-th measurement of an analyzer
pub fn query(e: &EbuR128, k: u64, c: u32) -> f64 {
    match k {
        0 => r(e.loudness_momentary()),
        1 => r(e.loudness_shortterm()),
        2 => r(e.loudness_window(e.max_window() as u32)),
        3 => r(e.loudness_global()),
        4 => r(e.relative_threshold()),
        5 => r(e.loudness_range()),
        6 => match e.gating_block_count_and_energy() {
            Some((n, _)) => n as f64,
            None => -1.0,
        },
        7 => match e.gating_block_count_and_energy() {
            Some((_, x)) => x,
            None => -1.0,
        },
        8 => r(e.sample_peak(c)),
        9 => r(e.true_peak(c)),
        10 => r(e.prev_sample_peak(c)),
        11 => r(e.prev_true_peak(c)),
        _ => 0.0,
    }
}

/// groups of queries that look at the same part of the state (one group per explored branch)
pub const GROUPS: [&[u64]; 5] = [&[0, 1, 2], &[3, 4, 6, 7], &[5], &[8, 10], &[9, 11]];

pub fn groups(m: Mode) -> ([usize; 5], usize) {
    let mut g = [0usize; 5];
    let mut n = 1;
    if m.contains(Mode::I) {
        g[n] = 1;
        n += 1;
    }
    if m.contains(Mode::LRA) {
        g[n] = 2;
        n += 1;
    }
    if m.contains(Mode::SAMPLE_PEAK) {
        g[n] = 3;
        n += 1;
    }
    if m.contains(Mode::TRUE_PEAK) {
        g[n] = 4;
        n += 1;
    }
    (g, n)
}

/// a and b give the same answer to every query (one group of queries per explored branch)
pub fn same_all(a: &EbuR128, b: &EbuR128, prev: bool, id: u64) {
    let (g, n) = groups(a.mode());
    let k = g[choice(n as u64) as usize];
    for &q in GROUPS[k] {
        same_q(a, b, q, prev, id);
    }
}

pub fn same_q(a: &EbuR128, b: &EbuR128, k: u64, prev: bool, id: u64) {
    if k >= 8 {
        if k >= 10 && !prev {
            return;
        }
        for c in 0..a.channels() {
            eq(query(a, k, c), query(b, k, c), id + k);
        }
    } else {
        eq(query(a, k, 0), query(b, k, 0), id + k);
    }
    cover(id + k);
}

pub fn fill<T: Samp>(d: &mut [T]) {
    for x in d.iter_mut() {
        *x = T::any();
    }
}

pub const CHANNELS: [Channel; 32] = [
    Channel::Unused,
    Channel::Left,
    Channel::Right,
    Channel::Center,
    Channel::LeftSurround,
    Channel::RightSurround,
    Channel::DualMono,
    Channel::MpSC,
    Channel::MmSC,
    Channel::Mp060,
    Channel::Mm060,
    Channel::Mp090,
    Channel::Mm090,
    Channel::Mp135,
    Channel::Mm135,
    Channel::Mp180,
    Channel::Up000,
    Channel::Up030,
    Channel::Um030,
    Channel::Up045,
    Channel::Um045,
    Channel::Up090,
    Channel::Um090,
    Channel::Up110,
    Channel::Um110,
    Channel::Up135,
    Channel::Um135,
    Channel::Up180,
    Channel::Tp000,
    Channel::Bp000,
    Channel::Bp045,
    Channel::Bm045,
];

/// BS.1770 weight of a channel position
pub fn weight(c: Channel) -> f64 {
    match c {
        Channel::Unused => 0.0,
        Channel::DualMono => 2.0,
        Channel::LeftSurround | Channel::RightSurround | Channel::Mp060 | Channel::Mm060 | Channel::Mp090 | Channel::Mm090 => 1.41,
        _ => 1.0,
    }
}

/// loudness of a mean square
pub fn lufs(e: f64) -> f64 {
    if e <= 0.0 {
        f64::NEG_INFINITY
    } else {
        10.0 * e.log10() - 0.691
    }
}

/// reference signal: the K-weighted frames of a whole stream, filtered in one go from rest
pub struct Stream {
    pub y: Vec<f64>,
    pub n: usize,
    pub map: [Channel; 64],
    pub ch: usize,
}

impl Stream {
    pub fn new(ch: u64, rate: u64, map: &[Channel], d: &[f64]) -> Stream {
        let ch = ch as usize;
        let mut s = Stream { y: vec![0.0; d.len()], n: d.len() / ch, map: [Channel::Unused; 64], ch };
        s.map[..ch].copy_from_slice(map);
        let mut f = ebur128::filter::Filter::new(rate as u32, ch as u32, false, false);
        if s.n > 0 {
            f.process(ebur128::Interleaved::new(d, ch).unwrap(), &mut s.y[..], 0, map);
        }
        s
    }
    /// weighted mean square of the len frames before frame `to` (frames before the start are silent)
    pub fn energy(&self, to: usize, len: usize) -> f64 {
        let from = if to > len { to - len } else { 0 };
        let mut sum = 0.0;
        for c in 0..self.ch {
            let mut q = 0.0;
            for i in from..to {
                let v = self.y[c * self.n + i];
                q += v * v;
            }
            sum += q * weight(self.map[c]);
        }
        sum / len as f64
    }
}

/// p frames of a fixed audible signal (different ones from every `phase`), then n arbitrary ones
pub fn audio<T: Samp>(ch: usize, phase: usize, p: usize, n: usize) -> Vec<T> {
    let mut d = vec![T::default(); (p + n) * ch];
    for i in 0..p * ch {
        d[i] = T::level(i + phase);
    }
    fill(&mut d[p * ch..]);
    d
}

/// p silent frames, n arbitrary frames, q silent frames
pub fn signal<T: Samp>(d: &mut [T; MAXS], ch: usize, p: usize, n: usize, q: usize) -> usize {
    fill(&mut d[p * ch..(p + n) * ch]);
    (p + n + q) * ch
}

/// energy of a block of -70 LUFS (10^((-70 + 0.691)/10))
pub const ABS: f64 = 1.1724653045822963e-7;

/// reference two-stage gate over at most 64 block energies
pub struct Gate {
    pub e: [f64; 64],
    pub n: usize,
}

impl Gate {
    pub fn new() -> Gate {
        Gate { e: [0.0; 64], n: 0 }
    }
    pub fn add(&mut self, x: f64) {
        if x >= ABS {
            self.e[self.n] = x;
            self.n += 1;
        }
    }
    pub fn mean(&self) -> f64 {
        let mut s = 0.0;
        for i in 0..self.n {
            s += self.e[i];
        }
        s / self.n as f64
    }
    /// relative threshold as energy (only with at least one block)
    pub fn threshold(&self) -> f64 {
        self.mean() * 0.1
    }
    pub fn threshold_lufs(&self) -> f64 {
        if self.n == 0 {
            -70.0
        } else {
            lufs(self.threshold())
        }
    }
    /// number and sum of the blocks that pass both gates
    pub fn gated(&self) -> (u64, f64) {
        if self.n == 0 {
            return (0, 0.0);
        }
        let t = self.threshold();
        let mut k = 0;
        let mut s = 0.0;
        for i in 0..self.n {
            if self.e[i] >= t {
                k += 1;
                s += self.e[i];
            }
        }
        (k, s)
    }
    pub fn loudness(&self) -> f64 {
        let (k, s) = self.gated();
        if k == 0 {
            f64::NEG_INFINITY
        } else {
            lufs(s / k as f64)
        }
    }
    /// loudness range: 95% minus 10% percentile (nearest rank) of the blocks from 20 LU below the mean on
    pub fn range(&self) -> f64 {
        if self.n == 0 {
            return 0.0;
        }
        let t = self.mean() * 0.01;
        let mut q = [0.0; 64];
        let mut k = 0;
        for i in 0..self.n {
            if self.e[i] >= t {
                // insertion sort
                let mut j = k;
                while j > 0 && q[j - 1] > self.e[i] {
                    q[j] = q[j - 1];
                    j -= 1;
                }
                q[j] = self.e[i];
                k += 1;
            }
        }
        if k == 0 {
            return 0.0;
        }
        let m = (k - 1) as f64;
        let h = (m * 0.95 + 0.5) as usize;
        let l = (m * 0.1 + 0.5) as usize;
        lufs(q[h]) - lufs(q[l])
    }
}
