E = 'src/ebur128.rs'; F = 'src/filter.rs'; H = 'src/history.rs'; U = 'src/utils.rs'; T = 'src/true_peak.rs'; I = 'src/interp.rs'; C = 'src/capi.rs'
HEAD = '''use ebur128::*;
fn near(a: f64, b: f64) -> bool { a == b || (a - b).abs() < 1e-9 }
#[allow(dead_code)]
fn noise(n: usize, seed: u64) -> Vec<f64> {
    let mut x = seed;
    (0..n).map(|_| { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((x >> 33) as f64) / (1u64 << 31) as f64 * 2.0 - 1.0 }).collect()
}
'''
M = lambda s: HEAD + 'fn main() { let _ = near(0.0, 0.0);\n' + s + '\n}\n'
BUGS = []


def bug(id, property, edits, main, needs, breaks): BUGS.append(dict(id=id, property=property, edits=edits, main=M(main), needs=needs, breaks=breaks))


bug('prev-peak-per-segment', 'C01', [(E, '''        self.filter.reset_peaks();

        while src.frames() > 0 {
            let num_frames = src.frames();
''', '''        while src.frames() > 0 {
            self.filter.reset_peaks();

            let num_frames = src.frames();
'''), (E, '''                src = next;
                self.needed_frames -= num_frames;
            }
        }

        let prev_sample_peak = self.filter.sample_peak();
        for (sample_peak, prev_sample_peak) in
            Iterator::zip(self.sample_peak.iter_mut(), prev_sample_peak.iter())
        {
            if *prev_sample_peak > *sample_peak {
                *sample_peak = *prev_sample_peak;
            }
        }

        let prev_true_peak = self.filter.true_peak();
        for (true_peak, prev_true_peak) in
            Iterator::zip(self.true_peak.iter_mut(), prev_true_peak.iter())
        {
            if *prev_true_peak > *true_peak {
                *true_peak = *prev_true_peak;
            }
        }

        Ok(())
''', '''                src = next;
                self.needed_frames -= num_frames;
            }

            let prev_sample_peak = self.filter.sample_peak();
            for (sample_peak, prev_sample_peak) in
                Iterator::zip(self.sample_peak.iter_mut(), prev_sample_peak.iter())
            {
                if *prev_sample_peak > *sample_peak {
                    *sample_peak = *prev_sample_peak;
                }
            }

            let prev_true_peak = self.filter.true_peak();
            for (true_peak, prev_true_peak) in
                Iterator::zip(self.true_peak.iter_mut(), prev_true_peak.iter())
            {
                if *prev_true_peak > *true_peak {
                    *true_peak = *prev_true_peak;
                }
            }
        }

        Ok(())
''')], '''
    let mut d = vec![0.1f64; 48000]; d[100] = 0.9;
    let mut e = EbuR128::new(1, 48000, Mode::SAMPLE_PEAK).unwrap();
    e.add_frames_f64(&d).unwrap();
    assert_eq!(e.prev_sample_peak(0).unwrap(), 0.9);
    assert_eq!(e.sample_peak(0).unwrap(), 0.9);
''', 'one call that spans several gating steps, with its loudest sample before the last step', 'prev peaks cover only the part of the call after the last 100 ms boundary')

bug('empty-call-clears-prev', 'C01', [(E, '''        if src.frames() == 0 {
            return Ok(());
        }

        if self.channels == 0 {
            return Err(Error::NoMem);
        }

        self.filter.reset_peaks();
''', '''        self.filter.reset_peaks();

        if src.frames() == 0 {
            return Ok(());
        }

        if self.channels == 0 {
            return Err(Error::NoMem);
        }
''')], '''
    let mut e = EbuR128::new(1, 48000, Mode::SAMPLE_PEAK).unwrap();
    e.add_frames_f64(&[0.5, 0.2]).unwrap();
    e.add_frames_f64(&[]).unwrap();
    assert_eq!(e.prev_sample_peak(0).unwrap(), 0.5);
''', 'an empty add_frames call followed by prev_sample_peak', 'prev peaks of the last non-empty call are lost by an empty call')

bug('late-block-at-exact-end', 'C01', [(E, '            if num_frames >= self.needed_frames {', '            if num_frames > self.needed_frames {')], '''
    let d = noise(48000, 7);
    let mut a = EbuR128::new(1, 48000, Mode::I).unwrap();
    let mut b = EbuR128::new(1, 48000, Mode::I).unwrap();
    a.add_frames_f64(&d[..4800 * 5]).unwrap();
    b.add_frames_f64(&d[..4800 * 5 - 1]).unwrap();
    b.add_frames_f64(&d[4800 * 5 - 1..4800 * 5]).unwrap();
    assert_eq!(a.gating_block_count_and_energy().unwrap().0, 2);
    assert_eq!(b.gating_block_count_and_energy().unwrap().0, 2);
''', 'a call that ends exactly at a 100 ms boundary', 'the block completed by the last frame of a call is counted only with the next call')

bug('planar-frames-from-start', 'C02', [(U, '        for f in self.start..self.end {\n            func(F::from_fn(|c| self.data[c][f]));', '        for f in 0..self.end - self.start {\n            func(F::from_fn(|c| self.data[c][f]));')], '''
    let mut l = vec![0.0f64; 48000]; let r = vec![0.0f64; 48000];
    l[30000] = 0.9; l[30001] = 0.9;
    let mut p = EbuR128::new(2, 48000, Mode::TRUE_PEAK).unwrap();
    p.add_frames_planar_f64(&[&l, &r]).unwrap();
    let mut i = EbuR128::new(2, 48000, Mode::TRUE_PEAK).unwrap();
    let v: Vec<f64> = l.iter().zip(&r).flat_map(|(a, b)| [*a, *b]).collect();
    i.add_frames_f64(&v).unwrap();
    assert_eq!(p.true_peak(0).unwrap(), i.true_peak(0).unwrap());
''', 'planar input of more than 400 ms in one call whose peak lies after the first block, with 1, 2, 4, 6 or 8 channels', 'true peak of planar input reads the frames of an earlier part of the call')

bug('i32-peak-in-f32', 'C02', [(U, '''impl Sample for i32 {
    const MAX_AMPLITUDE: f64 = -(Self::MIN as f64);

    #[inline(always)]
    fn as_f64_raw(self) -> f64 {
        self as f64
''', '''impl Sample for i32 {
    const MAX_AMPLITUDE: f64 = -(Self::MIN as f64);

    #[inline(always)]
    fn as_f64_raw(self) -> f64 {
        self as f32 as f64
''')], '''
    let v = 1_234_567_891i32;
    let mut a = EbuR128::new(1, 48000, Mode::SAMPLE_PEAK).unwrap();
    a.add_frames_i32(&[v]).unwrap();
    let mut b = EbuR128::new(1, 48000, Mode::SAMPLE_PEAK).unwrap();
    b.add_frames_f64(&[v as f64 / 2147483648.0]).unwrap();
    assert_eq!(a.sample_peak(0).unwrap(), b.sample_peak(0).unwrap());
''', 'i32 samples with more than 24 significant bits', 'sample peak of i32 input is rounded to f32')

bug('block-length-unrounded', 'C03', [(E, '''                    let energy = crate::filter::Filter::calc_gating_block(
                        self.samples_in_100ms * 4,
''', '''                    let energy = crate::filter::Filter::calc_gating_block(
                        self.rate as usize * 4 / 10,
''')], '''
    // 44109 Hz: 100 ms are 4411 frames, a block 17644 frames
    let mut d = vec![0.0f64; 17644]; d[0] = 1.0;
    let mut e = EbuR128::new(1, 44109, Mode::I).unwrap();
    e.add_frames_f64(&d).unwrap();
    let m = e.loudness_momentary().unwrap();
    let (n, x) = e.gating_block_count_and_energy().unwrap();
    assert_eq!(n, 1);
    assert!((energy_to_loudness(x) - m).abs() < 1e-9);
''', 'a rate that is not a multiple of 10 with energy in the first frames of a block', 'a gating block misses its first frames and is divided by another length')

bug('st-block-from-counter', 'C03', [(E, '                    self.short_term_frame_counter += self.needed_frames;\n                    if', '                    self.short_term_frame_counter += self.samples_in_100ms;\n                    if')], '''
    let d = noise(48000 * 6, 3);
    let count = |d: &[f64]| { let mut e = EbuR128::new(1, 48000, Mode::LRA).unwrap(); e.add_frames_f64(d).unwrap(); e.loudness_range().unwrap() };
    // a 20 dB step after 3 s: short-term blocks at 3 s, 4 s and 5 s see it to different degrees
    let mut s = d.clone(); for x in &mut s[48000 * 3..] { *x *= 0.2; }
    let mut t = d.clone(); for x in &mut t[48000 * 3 + 1..] { *x *= 0.2; }
    let a = count(&s[..48000 * 5]);
    // expected: the blocks [0,3), [1,4), [2,5)
    let mut f = EbuR128::new(1, 48000, Mode::S).unwrap();
    let mut l = vec![];
    for (i, c) in s[..48000 * 5].chunks(48000).enumerate() { f.add_frames_f64(c).unwrap(); if i >= 2 { l.push(f.loudness_shortterm().unwrap()); } }
    l.sort_by(|a, b| a.partial_cmp(b).unwrap());
    assert!((a - (l[2] - l[0])).abs() < 1e-6, "{} {:?}", a, l);
''', 'LRA mode with audio that changes around the 3 s boundaries, added in calls of any size', 'the frames of the first 400 ms are counted as 100 ms, so that short-term blocks come 300 ms late')

bug('relative-gate-strict', 'C04', [(H, '                        if *loudness >= relative_threshold {', '                        if *loudness > relative_threshold {')], '''
    // energies 1 and 19: the relative threshold is exactly 0.1 * (1 + 19) / 2 = 1
    let mut h = history::History::new(false, 100);
    h.add(1.0); h.add(19.0);
    assert_eq!(h.gating_block_count_and_energy().unwrap().0, 2);
    assert!(near(h.gated_loudness(), energy_to_loudness(10.0)));
''', 'a block energy exactly equal to the relative threshold', 'a block that reaches the relative threshold exactly is dropped')

bug('absolute-gate-strict', 'C04', [(H, '        if energy < HISTOGRAM_BOUNDARIES[0] {\n            return;', '        if energy <= HISTOGRAM_BOUNDARIES[0] {\n            return;')], '''
    let b = 1.1724653045822981e-7;
    assert_eq!(b, f64::powf(10.0, (-70.0 + 0.691) / 10.0));
    let mut h = history::History::new(true, 100);
    h.add(b);
    assert!(h.gating_block_count_and_energy().is_ok());
    let mut h = history::History::new(false, 100);
    h.add(b);
    assert!(h.gating_block_count_and_energy().is_ok());
''', 'a block energy exactly at the -70 LUFS boundary', 'a block of exactly -70 LUFS is ignored')

bug('histogram-bin-strict', 'C05', [(H, '        if energy >= HISTOGRAM_BOUNDARIES[mid] {\n            min = mid;', '        if energy > HISTOGRAM_BOUNDARIES[mid] {\n            min = mid;')], '''
    // two energies one ulp apart around a boundary must fall into different bins (searched between 0.1 LU steps)
    let c = |x: f64| { let mut h = history::History::new(true, 0); h.add(x); h.gating_block_count_and_energy().unwrap().1 };
    let b = f64::powf(10.0, (-23.0 + 0.691) / 10.0);
    let (mut lo, mut hi) = (b * 0.999, b * 1.001);
    while f64::from_bits(lo.to_bits() + 1) < hi { let m = f64::from_bits((lo.to_bits() + hi.to_bits()) / 2); if c(m) > c(b * 0.999) { hi = m } else { lo = m } }
    assert!(near(hi, b) && hi <= b * (1.0 + 4e-16), "{:e} {:e}", hi, b);
    assert_eq!(hi.to_bits(), 0x3f7811b0e3844852);
''', 'an energy exactly on a bin boundary', 'an energy on the lower boundary of a bin is counted in the bin below')

bug('histogram-threshold-bin', 'C05', [(H, '            if relative_threshold > HISTOGRAM_ENERGIES[start_index] {', '            if relative_threshold > HISTOGRAM_BOUNDARIES[start_index] {')], '''
    // 0 LUFS blocks and one block near -10.3: the gate lies inside the bin of the quiet block
    let e = |l: f64| f64::powf(10.0, (l + 0.691) / 10.0);
    for k in 0..200 {
        let q = -11.0 + k as f64 * 0.01;
        let mut h = history::History::new(true, 0);
        for _ in 0..20 { h.add(e(0.02)); }
        h.add(e(q));
        let t = h.relative_threshold();
        let centre = { let mut g = history::History::new(true, 0); g.add(e(q)); g.gated_loudness() };
        let n = h.gating_block_count_and_energy().unwrap().0;
        if (centre - t).abs() > 1e-6 { assert_eq!(n, if centre > t { 21 } else { 20 }, "{}", q); }
    }
''', 'a relative threshold that lies in the lower half of the bin holding a block', 'blocks above the relative threshold are dropped when they share its bin')

bug('range-histogram-threshold-bin', 'C06', [(H, '            if integrated > HISTOGRAM_ENERGIES[index] {', '            if integrated > HISTOGRAM_BOUNDARIES[index] {')], '''
    let e = |l: f64| f64::powf(10.0, (l + 0.691) / 10.0);
    for k in 0..200 {
        let q = -21.5 + k as f64 * 0.01;
        let mut h = history::History::new(true, 0);
        for _ in 0..4 { h.add(e(0.02)); }
        h.add(e(q));
        let c = |x: f64| { let mut g = history::History::new(true, 0); g.add(e(x)); g.gated_loudness() };
        let (top, low) = (c(0.02), c(q));
        let gate = 10.0 * f64::log10((4.0 * e(top) + e(low)) / 5.0) - 0.691 - 20.0;
        if (low - gate).abs() > 1e-6 {
            let want = if low > gate { top - low } else { 0.0 };
            assert!((h.loudness_range() - want).abs() < 1e-6, "{} {} {}", q, h.loudness_range(), want);
        }
    }
''', 'histogram mode with a quiet block in the same bin as the gate and above it', 'loudness range drops blocks above the relative gate')

bug('range-rank-floor', 'C06', [(H, '            let l_en = q[relgated + (relgated_size * 0.1 + 0.5) as usize];', '            let l_en = q[relgated + (relgated_size * 0.1 + 0.499) as usize];')], '''
    let mut h = history::History::new(false, 100);
    for k in 0..6 { h.add(1.0 + k as f64); }
    // rank 5 * 0.1 + 0.5 = 1
    assert!(near(h.loudness_range(), energy_to_loudness(6.0) - energy_to_loudness(2.0)));
''', 'a number of gated blocks n with (n - 1) / 10 exactly half way between integers (6, 16, 26, ...)', 'the 10% percentile rank is rounded down on ties')

bug('window-clamped', 'C07', [(E, '''            .ok_or(Error::InvalidMode)?
            / 1000;
        let energy = self.energy_in_interval(interval_frames)?;
''', '''            .ok_or(Error::InvalidMode)?
            / 1000;
        let interval_frames =
            std::cmp::min(interval_frames, self.audio_data.len() / self.channels as usize);
        let energy = self.energy_in_interval(interval_frames)?;
''')], '''
    let mut e = EbuR128::new(1, 48000, Mode::M).unwrap();
    e.add_frames_f64(&noise(48000, 5)).unwrap();
    assert_eq!(e.loudness_window(1000), Err(Error::InvalidMode));
''', 'loudness_window with a window longer than the maximum window', 'a window longer than the maximum is answered from a shorter one')

bug('window-in-steps', 'C07', [(E, '''        let interval_frames = (self.rate as usize)
            .checked_mul(window as usize)
            .ok_or(Error::InvalidMode)?
            / 1000;
''', '''        let interval_frames = self
            .samples_in_100ms
            .checked_mul(window as usize)
            .ok_or(Error::InvalidMode)?
            / 100;
''')], '''
    // 22049 Hz: 300 ms are 6614 frames
    let mut d = vec![0.0f64; 30000]; d[30000 - 6615] = 1.0;
    for x in &mut d[30000 - 6614..] { *x = 0.0; }
    let mut e = EbuR128::new(1, 22049, Mode::M).unwrap();
    e.add_frames_f64(&d).unwrap();
    let mut f = EbuR128::new(1, 22049, Mode::M).unwrap();
    let mut o = d.clone(); o[30000 - 6615] = 0.0; o[30000 - 6614] = 1.0;
    f.add_frames_f64(&o).unwrap();
    // the impulse lies just outside the window, so only its tail is inside
    assert!(e.loudness_window(300).unwrap() < f.loudness_window(300).unwrap() - 3.0);
''', 'a rate that is not a multiple of 10 and audio at the edge of the window', 'loudness_window covers a rounded number of frames')

bug('i16-clamped-peak', 'C08', [(U, '''impl Sample for i16 {
    const MAX_AMPLITUDE: f64 = -(Self::MIN as f64);

    #[inline(always)]
    fn as_f64_raw(self) -> f64 {
        self as f64
''', '''impl Sample for i16 {
    const MAX_AMPLITUDE: f64 = -(Self::MIN as f64);

    #[inline(always)]
    fn as_f64_raw(self) -> f64 {
        std::cmp::max(self, -Self::MAX) as f64
''')], '''
    let mut e = EbuR128::new(1, 48000, Mode::SAMPLE_PEAK).unwrap();
    e.add_frames_i16(&[3, i16::MIN, -7]).unwrap();
    assert_eq!(e.sample_peak(0).unwrap(), 1.0);
''', 'an i16 sample of negative full scale', 'the sample peak of i16::MIN is below 1.0')

bug('peak-nan-poison', 'C08', [(F, '''                        let v = sample.as_f64_raw().abs();
                        if v > max {
                            max = v;
                        }
''', '''                        let v = sample.as_f64_raw().abs();
                        if !(v <= max) {
                            max = v;
                        }
''')], '''
    let mut e = EbuR128::new(1, 48000, Mode::SAMPLE_PEAK).unwrap();
    e.add_frames_f64(&[0.9, f64::NAN, 0.2]).unwrap();
    assert_eq!(e.sample_peak(0).unwrap(), 0.9);
''', 'a NaN sample after the maximum of a call', 'a NaN sample makes the maximum forget what came before')

bug('oversample-at-96k', 'C09', [(T, '        let interp_factor = if rate < 96_000 {', '        let interp_factor = if rate <= 96_000 {')], '''
    // at 96 kHz the 24-tap 2x interpolator is used: an impulse has exactly two taps per input frame
    let d = noise(64, 11);
    let mut e = EbuR128::new(1, 96000, Mode::TRUE_PEAK).unwrap();
    e.add_frames_f64(&d).unwrap();
    let mut i = interp::InterpF::<24, 2, [f32; 1]>::new();
    let mut m = 0f32;
    for x in &d { for [y] in i.interpolate([*x as f32]) { m = m.max(y.abs()); } }
    let s = d.iter().fold(0f64, |a, b| a.max(b.abs()));
    assert_eq!(e.true_peak(0).unwrap(), s.max(m as f64));
''', 'a rate of exactly 96000 Hz', '4x oversampling at 96 kHz')

bug('prev-true-peak-below-sample', 'C09', [(E, '''        let sample_peak = self.filter.sample_peak();
        let true_peak = self.filter.true_peak();

        if sample_peak[channel_number as usize] > true_peak[channel_number as usize] {
            Ok(sample_peak[channel_number as usize])
        } else {
            Ok(true_peak[channel_number as usize])
        }
''', '''        Ok(self.filter.true_peak()[channel_number as usize])
''')], '''
    let mut e = EbuR128::new(1, 48000, Mode::TRUE_PEAK).unwrap();
    e.add_frames_f64(&[0.0, 0.0, 0.7]).unwrap();
    assert!(e.prev_true_peak(0).unwrap() >= e.prev_sample_peak(0).unwrap());
''', 'a call whose loudest sample is among its last frames (or a rate from 192 kHz on)', 'prev_true_peak is below prev_sample_peak')

bug('surround-weight-060', 'C10', [(F, '''                | Channel::Mp060
                | Channel::Mm060
''', '')], '''
    let d = noise(48000, 3);
    let l = |c| { let mut e = EbuR128::new(1, 48000, Mode::M).unwrap(); e.set_channel(0, c).unwrap(); e.add_frames_f64(&d).unwrap(); e.loudness_momentary().unwrap() };
    assert!(near(l(Channel::Mp060), l(Channel::LeftSurround)));
    assert!(near(l(Channel::Mm060), l(Channel::Mm090)));
''', 'a channel at M+060 or M-060', 'the +/-60 degree positions lose their surround weight')

bug('map-applied-before-rejection', 'C10', [(E, '''            if *value == Channel::DualMono && (self.channels != 1 || channel_number != 0) {
                return Err(Error::InvalidChannelIndex);
            }
        }

        self.channel_map.copy_from_slice(channel_map);
        Ok(())
''', '''            if *value == Channel::DualMono && (self.channels != 1 || channel_number != 0) {
                return Err(Error::InvalidChannelIndex);
            }

            self.channel_map[channel_number] = *value;
        }

        Ok(())
''')], '''
    let mut e = EbuR128::new(2, 48000, Mode::M).unwrap();
    assert!(e.set_channel_map(&[Channel::Unused, Channel::DualMono]).is_err());
    assert_eq!(e.channel_map(), &[Channel::Left, Channel::Right]);
''', 'set_channel_map with a valid first and an invalid later entry', 'a rejected map is applied up to the invalid entry')

bug('reset-keeps-counter', 'C11', [(E, '''        self.audio_data_index = 0;
        // reset short term frame counter
        self.short_term_frame_counter = 0;

        self.true_peak.fill(0.0);
''', '''        self.audio_data_index = 0;

        self.true_peak.fill(0.0);
''')], '''
    let d = noise(48000 * 5, 3);
    let run = |pre: usize| { let mut e = EbuR128::new(1, 48000, Mode::LRA).unwrap(); e.add_frames_f64(&d[..pre]).unwrap(); e.reset();
        let mut s = d.clone(); for x in &mut s[48000 * 2..] { *x *= 0.1; }
        e.add_frames_f64(&s).unwrap(); e.loudness_range().unwrap() };
    assert!(near(run(48000), run(0)), "{} {}", run(48000), run(0));
''', 'reset after some audio in LRA mode, then more than 3 s of varying audio', 'short-term blocks are taken at other times after a reset')

bug('reset-short-first-block', 'C11', [(E, '''        self.audio_data.fill(0.0);

        // the first block needs 400ms of audio data
        self.needed_frames = self.samples_in_100ms * 4;
''', '''        self.audio_data.fill(0.0);

        // the next block needs 100ms of audio data
        self.needed_frames = self.samples_in_100ms;
''')], '''
    let d = noise(48000, 3);
    let mut e = EbuR128::new(1, 48000, Mode::I).unwrap();
    e.add_frames_f64(&d).unwrap();
    e.reset();
    e.add_frames_f64(&d[..24000]).unwrap();
    assert_eq!(e.gating_block_count_and_energy().unwrap().0, 2);
''', 'reset followed by more audio', 'after a reset the first gating blocks are taken before 400 ms are complete')

bug('rate-change-unrounded', 'C12', [(E, '            self.samples_in_100ms = (rate as usize + 5) / 10;', '            self.samples_in_100ms = rate as usize / 10;')], '''
    let d = noise(60000, 3);
    let mut a = EbuR128::new(1, 48000, Mode::I).unwrap();
    a.change_parameters(1, 44109).unwrap();
    let mut b = EbuR128::new(1, 44109, Mode::I).unwrap();
    // 44109 Hz: 100 ms are 4411 frames; after 17641 frames no block is complete
    a.add_frames_f64(&d[..17641]).unwrap(); b.add_frames_f64(&d[..17641]).unwrap();
    assert_eq!(a.gating_block_count_and_energy().is_some(), b.gating_block_count_and_energy().is_some());
''', 'change_parameters to a rate whose 100 ms are rounded up', 'blocks have another length after a change of the rate than on a new analyzer')

bug('window-only-grows', 'C12', [(E, '        if window as usize == self.window {\n            return Ok(());', '        if window as usize <= self.window {\n            return Ok(());')], '''
    let mut e = EbuR128::new(1, 48000, Mode::M).unwrap();
    e.set_max_window(2000).unwrap();
    e.set_max_window(500).unwrap();
    assert_eq!(e.max_window(), 500);
    e.add_frames_f64(&noise(48000, 4)).unwrap();
    assert_eq!(e.loudness_window(1500), Err(Error::InvalidMode));
''', 'lowering the maximum window after raising it', 'set_max_window silently keeps the old larger window')

bug('change-keeps-unfinished', 'C12', [(E, '''        // the first block needs 400ms of audio data
        self.needed_frames = self.samples_in_100ms * 4;
        // start at the beginning of the buffer
        self.audio_data_index = 0;
        // reset short term frame counter
        self.short_term_frame_counter = 0;

        Ok(())
    }

    /// Set the maximum window duration.
''', '''        // the first block needs 400ms of audio data
        self.needed_frames = self.samples_in_100ms * 4;
        // start at the beginning of the buffer
        self.audio_data_index = 0;

        Ok(())
    }

    /// Set the maximum window duration.
''')], '''
    let d = noise(48000 * 6, 3);
    let mut s = d.clone(); for x in &mut s[48000 * 3..] { *x *= 0.1; }
    let mut a = EbuR128::new(1, 32000, Mode::LRA).unwrap();
    a.add_frames_f64(&d[..32000]).unwrap();
    a.change_parameters(1, 48000).unwrap();
    a.add_frames_f64(&s).unwrap();
    let mut b = EbuR128::new(1, 48000, Mode::LRA).unwrap();
    b.add_frames_f64(&s).unwrap();
    assert!(near(a.loudness_range().unwrap(), b.loudness_range().unwrap()));
''', 'change_parameters in the middle of the first 3 s in LRA mode', 'the short-term block counter survives a change of parameters, so blocks come at wrong times or never')

bug('range-second-slice', 'C13', [(H, '''                            let (v1, v2) = q.queue.as_slices();
                            combined.extend_from_slice(v1);
                            combined.extend_from_slice(v2);
''', '''                            let (v1, _) = q.queue.as_slices();
                            combined.extend_from_slice(v1);
''')], '''
    let mut h = history::History::new(false, 4);
    for k in 1..=6 { h.add(k as f64); }
    assert!(near(h.loudness_range(), energy_to_loudness(6.0) - energy_to_loudness(3.0)), "{}", h.loudness_range());
''', 'a history at its maximum that has wrapped around', 'loudness range ignores the newest blocks')

bug('history-one-too-many', 'C13', [(H, '        if self.max == self.queue.len() {\n            self.queue.pop_front();', '        if self.max < self.queue.len() {\n            self.queue.pop_front();')], '''
    let mut h = history::History::new(false, 3);
    for k in 1..=5 { h.add(k as f64); }
    assert_eq!(h.gating_block_count_and_energy().unwrap(), (3, 12.0));
''', 'more blocks than the maximum history', 'the history keeps one block more than the maximum')

bug('history-capped', 'C13', [(H, '            queue: VecDeque::with_capacity(std::cmp::min(max, 5000)),\n            max,', '            queue: VecDeque::with_capacity(std::cmp::min(max, 5000)),\n            max: std::cmp::min(max, 5000),')], '''
    let mut h = history::History::new(false, usize::MAX / 100);
    for _ in 0..5001 { h.add(1.0); }
    assert_eq!(h.gating_block_count_and_energy().unwrap().0, 5001);
''', 'more than 5000 blocks (500 s of audio)', 'the history silently forgets everything but the last 5000 blocks')

bug('prev-true-peak-mode', 'C14', [(E, '''    pub fn prev_true_peak(&self, channel_number: u32) -> Result<f64, Error> {
        if !self.mode.contains(Mode::TRUE_PEAK) {
''', '''    pub fn prev_true_peak(&self, channel_number: u32) -> Result<f64, Error> {
        if !self.mode.contains(Mode::SAMPLE_PEAK) {
''')], '''
    let e = EbuR128::new(1, 48000, Mode::SAMPLE_PEAK).unwrap();
    assert_eq!(e.prev_true_peak(0), Err(Error::InvalidMode));
''', 'prev_true_peak in a mode with sample peak only', 'prev_true_peak answers in a mode without true peak')

bug('change-rejects-64', 'C14', [(E, '''    pub fn change_parameters(&mut self, channels: u32, rate: u32) -> Result<(), Error> {
        if channels == 0 || channels > MAX_CHANNELS {
''', '''    pub fn change_parameters(&mut self, channels: u32, rate: u32) -> Result<(), Error> {
        if channels == 0 || channels >= MAX_CHANNELS {
''')], '''
    let mut e = EbuR128::new(1, 48000, Mode::M).unwrap();
    assert!(e.change_parameters(64, 48000).is_ok());
''', 'change_parameters to 64 channels', 'change_parameters rejects the largest valid number of channels')

bug('multiple-gate-from-first', 'C15', [(H, '        let (above_thresh_counter, relative_threshold) = s.iter().fold((0, 0.0), |mut acc, h| {', '        let (above_thresh_counter, relative_threshold) = s.iter().take(1).fold((0, 0.0), |mut acc, h| {')], '''
    let mut a = history::History::new(false, 10); a.add(1.0);
    let mut b = history::History::new(false, 10); b.add(100.0);
    let x = history::History::gated_loudness_multiple(&[&a, &b]);
    let y = history::History::gated_loudness_multiple(&[&b, &a]);
    assert!(near(x, y) && near(x, energy_to_loudness(100.0)));
''', 'several analyzers whose blocks differ in level', 'the relative gate of several analyzers is that of the first one')

bug('multiple-range-double-first', 'C15', [(H, '                    combined = [0; 1000];\n', '                    combined = *h.0;\n')], '''
    let e = |l: f64| f64::powf(10.0, (l + 0.691) / 10.0);
    let mut u = history::History::new(true, 0);
    let mut a = history::History::new(true, 0);
    let mut b = history::History::new(true, 0);
    for k in 0..7 { a.add(e(-23.0 - k as f64)); u.add(e(-23.0 - k as f64)); }
    for k in 0..4 { b.add(e(-10.0 - 3.0 * k as f64)); u.add(e(-10.0 - 3.0 * k as f64)); }
    assert!(near(history::History::loudness_range_multiple(&[&a, &b]).unwrap(), u.loudness_range()));
    assert!(near(history::History::loudness_range_multiple(&[&b, &a]).unwrap(), u.loudness_range()));
''', 'loudness range of several histogram analyzers with different distributions', 'the blocks of the first histogram count twice')

bug('seed-skips-true-peak-tail', 'C16', [(T, '''        let mut true_peaks: SmallVec<[f64; 16]> = smallvec![0.0; src.channels()];
        self.interp.check_true_peak(src, &mut true_peaks)
''', '''        // Only the interpolator history matters here
        let taps = std::cmp::min(src.frames(), 12);
        let skip = src.frames() - taps;
        let (_, src) = src.split_at(skip);
        let mut true_peaks: SmallVec<[f64; 16]> = smallvec![0.0; src.channels()];
        self.interp.check_true_peak(src, &mut true_peaks)
''')], '''
    // 2x oversampling has 24 taps, so 23 seed frames matter
    let d = noise(64, 9);
    let mut a = EbuR128::new(1, 96000, Mode::TRUE_PEAK).unwrap();
    a.seed_frames_f64(&d).unwrap();
    a.add_frames_f64(&[0.0, 0.0]).unwrap();
    let mut i = interp::InterpF::<24, 2, [f32; 1]>::new();
    for x in &d { i.interpolate([*x as f32]); }
    let mut m = 0f32;
    for _ in 0..2 { for [y] in i.interpolate([0.0]) { m = m.max(y.abs()); } }
    assert_eq!(a.true_peak(0).unwrap(), m as f64);
''', 'seeding with more than 12 frames at 96 kHz or more', 'seeding fills only the last 12 frames of the 24-tap interpolator')

bug('seed-leaves-peaks', 'C16', [(F, '''                tp.seed(src);
''', '''                tp.check_true_peak(src, &mut self.true_peak);
''')], '''
    let mut a = EbuR128::new(1, 48000, Mode::TRUE_PEAK).unwrap();
    a.seed_frames_f64(&[0.0, 0.9, 0.9, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0]).unwrap();
    assert_eq!(a.prev_true_peak(0).unwrap(), 0.0);
    assert_eq!(a.true_peak(0).unwrap(), 0.0);
''', 'prev_true_peak after seeding', 'seed frames are visible in prev_true_peak')

bug('c-window-wrong-default', 'C17', [(C, '''    match e.change_parameters(channels, samplerate as u32) {
        Err(err) => err.into(),
        Ok(_) => {
            s.channels = channels;
            s.samplerate = samplerate;
            0
        }
    }
''', '''    s.channels = channels;
    s.samplerate = samplerate;

    match e.change_parameters(channels, samplerate as u32) {
        Err(err) => err.into(),
        Ok(_) => 0,
    }
''')], '''
    use ebur128::capi::*;
    unsafe {
        let s = ebur128_init(2, 48000, 5);
        assert_eq!(ebur128_change_parameters(s, 0, 48000), 1);
        // the public fields still describe the analyzer: repeating its parameters is no change
        assert_eq!(ebur128_change_parameters(s, 2, 48000), 4);
        let d = [0.0f64; 8];
        assert_eq!(ebur128_add_frames_double(s, d.as_ptr(), 4), 0);
        let mut s = s; ebur128_destroy(&mut s);
    }
''', 'a rejected ebur128_change_parameters followed by further calls', 'the public fields of the state describe parameters that were rejected')

bug('c-prev-peak', 'C17', [(C, '    match e.prev_sample_peak(channel_number) {', '    match e.sample_peak(channel_number) {')], '''
    use ebur128::capi::*;
    unsafe {
        let mut s = ebur128_init(1, 48000, 17);
        assert_eq!(ebur128_add_frames_double(s, [0.9f64].as_ptr(), 1), 0);
        assert_eq!(ebur128_add_frames_double(s, [0.2f64].as_ptr(), 1), 0);
        let mut o = 0.0;
        assert_eq!(ebur128_prev_sample_peak(s, 0, &mut o), 0);
        assert_eq!(o, 0.2);
        ebur128_destroy(&mut s);
    }
''', 'two add calls with different peaks', 'ebur128_prev_sample_peak returns the overall sample peak')

bug('window-not-rounded-to-steps', 'C18', [(E, '        if audio_data_frames % samples_in_100ms != 0 {', '        if audio_data_frames % samples_in_100ms != 0 && window < 400 {')], '''
    let mut e = EbuR128::new(1, 48000, Mode::M).unwrap();
    e.set_max_window(450).unwrap();
    e.add_frames_f64(&noise(48000, 2)).unwrap();
    assert!(e.loudness_momentary().is_ok());
''', 'a maximum window that is not a multiple of 100 ms and enough audio to reach the end of the buffer', 'adding frames panics at the end of a buffer that is not a whole number of steps')

bug('planar-longer-planes', 'C18', [(U, '        if data.iter().any(|d| data[0].len() != d.len()) {', '        if data.iter().any(|d| data[0].len() > d.len()) {')], '''
    let mut e = EbuR128::new(2, 48000, Mode::M).unwrap();
    assert!(e.add_frames_planar_f64(&[&[0.0, 0.0], &[0.0, 0.0, 0.0]]).is_err());
''', 'planes where a later one is longer than the first', 'planes of unequal length are accepted')

bug('low-rate-shelf', 'C19', [(F, '    let f0 = 1681.974450955533;\n', '    let f0 = f64::min(1681.974450955533, rate * 0.1);\n')], '''
    // at 8 kHz the shelf frequency stays where the standard puts it: gain of a 1 kHz tone against 48 kHz
    let l = |rate: u32, f: f64| {
        let d: Vec<f64> = (0..rate as usize * 2).map(|i| f64::sin(2.0 * std::f64::consts::PI * f * i as f64 / rate as f64)).collect();
        let mut e = EbuR128::new(1, rate, Mode::M).unwrap(); e.add_frames_f64(&d).unwrap(); e.loudness_momentary().unwrap() };
    assert!((l(8000, 1000.0) - l(48000, 1000.0)).abs() < 0.25, "{} {}", l(8000, 1000.0), l(48000, 1000.0));
''', 'a rate below 16.8 kHz', 'the shelf frequency of the K-weighting filter moves with the rate')

bug('state-flushed-between-calls', 'C19', [(F, '''                if ftz.is_none() {
                    for v in filter_state {
                        if v.abs() < f64::EPSILON {
                            *v = 0.0;
                        }
                    }
                }
            }

            if let Some(ref mut tp) = self.tp {
                assert!(self.true_peak.len() == self.channels as usize);
                tp.check_true_peak(src, &mut self.true_peak);
''', '''                let _ = ftz;
                for v in filter_state {
                    if v.abs() < 1e-10 {
                        *v = 0.0;
                    }
                }
            }

            if let Some(ref mut tp) = self.tp {
                assert!(self.true_peak.len() == self.channels as usize);
                tp.check_true_peak(src, &mut self.true_peak);
''')], '''
    // a very quiet signal, fed frame by frame: the filter must still build it up
    let mut f = filter::Filter::new(48000, 1, false, false);
    let mut o = [0.0f64; 64];
    for i in 0..64 { f.process(Interleaved::new(&[5e-11f64], 1).unwrap(), &mut o, i, &[Channel::Left]); }
    let mut g = filter::Filter::new(48000, 1, false, false);
    let mut p = [0.0f64; 64];
    g.process(Interleaved::new(&[5e-11f64; 64], 1).unwrap(), &mut p, 0, &[Channel::Left]);
    assert_eq!(o, p);
''', 'signals below 1e-10 fed in small calls', 'small filter states are forgotten between calls')

bug('mxcsr-ftz-cleared', 'C20', [(F, '''            unsafe {
                _mm_setcsr(self.0);
            }
''', '''            unsafe {
                _mm_setcsr(self.0 & !_MM_FLUSH_ZERO_ON);
            }
''')], '''
    #[allow(deprecated)]
    unsafe {
        use std::arch::x86_64::*;
        let old = _mm_getcsr();
        _mm_setcsr(old | 0x8000);
        let mut e = EbuR128::new(1, 48000, Mode::M).unwrap();
        e.add_frames_f64(&[0.0; 16]).unwrap();
        let now = _mm_getcsr();
        _mm_setcsr(old);
        assert_eq!(now & 0x8000, 0x8000);
    }
''', 'a caller that itself runs with flush-to-zero enabled', 'flush-to-zero is switched off for the caller')

bug('mxcsr-daz-left', 'C20', [(F, '            _mm_setcsr(csr | _MM_FLUSH_ZERO_ON);\n', '            // denormal inputs are zero, too\n            _mm_setcsr(csr | _MM_FLUSH_ZERO_ON | 0x0040);\n'), (F, '                _mm_setcsr(self.0);\n', '                // keep the sticky exception flags\n                _mm_setcsr((_mm_getcsr() & !_MM_FLUSH_ZERO_ON) | (self.0 & _MM_FLUSH_ZERO_ON));\n')], '''
    #[allow(deprecated)]
    unsafe {
        use std::arch::x86_64::*;
        let old = _mm_getcsr();
        let mut e = EbuR128::new(1, 48000, Mode::M).unwrap();
        e.add_frames_f64(&[0.0; 16]).unwrap();
        let now = _mm_getcsr();
        _mm_setcsr(old);
        assert_eq!(now & !0x3f, old & !0x3f);
    }
''', 'any add call, seen in the caller\'s denormal arithmetic', 'denormals-are-zero stays on in the caller\'s thread')
