import os, sys
sys.path.insert(0, os.path.dirname(__file__))
from plants_a import E, F, H, U, T, I, C, M
BUGS = []


def bug(id, property, edits, main, needs, breaks): BUGS.append(dict(id=id, property=property, edits=edits, main=M(main), needs=needs, breaks=breaks))


bug('single-frame-not-interpolated', 'C01', [(F, '''            if let Some(ref mut tp) = self.tp {
                assert!(self.true_peak.len() == self.channels as usize);
                tp.check_true_peak(src, &mut self.true_peak);
            }''', '''            if let Some(ref mut tp) = self.tp {
                assert!(self.true_peak.len() == self.channels as usize);
                if src.frames() > 1 {
                    tp.check_true_peak(src, &mut self.true_peak);
                }
            }''')], '''
    let d = noise(200, 5);
    let mut a = EbuR128::new(1, 48000, Mode::TRUE_PEAK).unwrap();
    a.add_frames_f64(&d).unwrap();
    let mut b = EbuR128::new(1, 48000, Mode::TRUE_PEAK).unwrap();
    for x in &d { b.add_frames_f64(&[*x]).unwrap(); }
    assert!((a.true_peak(0).unwrap() - b.true_peak(0).unwrap()).abs() < 1e-9);
''', 'segments of exactly one frame', 'a segment of a single frame never reaches the interpolator')

bug('long-partial-not-counted', 'C01', [(E, '''                if self.mode.contains(Mode::LRA) {
                    self.short_term_frame_counter += num_frames;
                }
''', '''                if self.mode.contains(Mode::LRA) && num_frames < self.samples_in_100ms {
                    self.short_term_frame_counter += num_frames;
                }
''')], '''
    let d = noise(48000 * 4, 5);
    let mut a = EbuR128::new(1, 48000, Mode::LRA).unwrap();
    let mut b = EbuR128::new(1, 48000, Mode::LRA).unwrap();
    let mut e: Vec<f64> = d.clone();
    for x in &mut e[..48000] { *x *= 0.3; }
    a.add_frames_f64(&e).unwrap();
    b.add_frames_f64(&e[..9600]).unwrap();
    b.add_frames_f64(&e[9600..]).unwrap();
    assert!((a.loudness_range().unwrap() - b.loudness_range().unwrap()).abs() < 1e-9, "{:?} {:?}", a, b);
''', 'the first call shorter than 400 ms but at least 100 ms long, loudness range', 'the frames of that call are missing from the short-term counter, so that no short-term block is ever complete')

bug('i32-amplitude-max', 'C02', [(U, '''impl Sample for i32 {
    const MAX_AMPLITUDE: f64 = -(Self::MIN as f64);''', '''impl Sample for i32 {
    const MAX_AMPLITUDE: f64 = Self::MAX as f64;''')], '''
    let mut a = EbuR128::new(1, 48000, Mode::SAMPLE_PEAK).unwrap();
    a.add_frames_i32(&[i32::MIN, 5]).unwrap();
    assert_eq!(a.sample_peak(0).unwrap(), 1.0);
''', 'sample peaks of i32 audio compared exactly', 'full scale of i32 is 2^31 - 1 in the sample peak')

bug('sorted-shortcut', 'C06', [(H, '''                let mut contains_nan = false;
                combined.sort_unstable_by(|a, b| {''', '''                let mut contains_nan = false;
                // nothing to do for a monotone programme
                let sorted = combined.first() <= combined.last() && combined.chunks_exact(2).all(|c| c[0] <= c[1]);
                let unsorted = if sorted { 0 } else { combined.len() };
                combined[..unsorted].sort_unstable_by(|a, b| {''')], '''
    let mut h = history::History::new(false, 1000);
    for e in [0.5, 0.9, 0.2, 0.8, 0.6, 0.7] { h.add(e); }
    let mut s = history::History::new(false, 1000);
    for e in [0.2, 0.5, 0.6, 0.7, 0.8, 0.9] { s.add(e); }
    assert!(near(h.loudness_range(), s.loudness_range()));
''', 'blocks in an order that ascends in every other pair only', 'the blocks are not sorted when every second neighbour pair ascends')

bug('change-keeps-equal-buffer', 'C12', [(E, '''        self.audio_data = Self::allocate_audio_data(channels, rate, self.window)?;

        if self.channels''', '''        let audio_data = Self::allocate_audio_data(channels, rate, self.window)?;
        if audio_data.len() != self.audio_data.len() {
            self.audio_data = audio_data;
        }

        if self.channels''')], '''
    let mut e = EbuR128::new(2, 24000, Mode::M).unwrap();
    e.add_frames_f64(&noise(24000, 4)).unwrap();
    e.change_parameters(1, 48000).unwrap();
    assert_eq!(e.loudness_momentary().unwrap(), -f64::INFINITY);
''', 'a change of rate and channels that needs a buffer of the same size', 'the windows still see the audio from before the change')

bug('short-history-rounded-up', 'C13', [(E, '            .set_max_size(self.history / 3000);', '            .set_max_size(self.history.div_ceil(3000));')], '''
    let mut e = EbuR128::new(1, 48000, Mode::LRA).unwrap();
    e.set_max_history(5000).unwrap();
    let mut d = noise(48000 * 12, 3);
    for x in &mut d[..48000 * 8] { *x *= 0.2; }
    // the newest short-term block is [9,12), the one before [8,11): keep one only
    for x in &mut d[48000 * 11..] { *x *= 3.0; }
    e.add_frames_f64(&d).unwrap();
    assert_eq!(e.loudness_range().unwrap(), 0.0);
''', 'a maximum history that is not a multiple of 3 s, loudness range', 'one short-term block too many is kept')

bug('max-rate-exclusive', 'C14', [(E, '''        if !(16..=MAX_RATE).contains(&rate) {
            return Err(Error::NoMem);
        }

        if self.rate == rate''', '''        if !(16..MAX_RATE).contains(&rate) {
            return Err(Error::NoMem);
        }

        if self.rate == rate''')], '''
    let mut e = EbuR128::new(1, 48000, Mode::M).unwrap();
    assert!(e.change_parameters(1, 2822400).is_ok());
''', 'a change to the highest rate', 'change_parameters rejects 2822400 Hz')

bug('multiple-empty-first', 'C15', [(H, '''        if s.is_empty() {
            return Ok(0.0);
        }

        match s[0] {''', '''        if s.is_empty() || s.iter().all(|h| h.calc_relative_threshold().0 == 1) {
            return Ok(0.0);
        }

        match s[0] {''')], '''
    let mut h = history::History::new(false, 1000);
    h.add(0.5);
    let mut s = history::History::new(false, 1000);
    s.add(0.25);
    assert!(history::History::loudness_range_multiple(&[&h, &s]).unwrap() > 2.0);
''', 'several analyzers with exactly one short-term block each', 'the range over analyzers with a single block each is 0')

bug('seed-restarts-filter', 'C16', [(F, '''                src.foreach_sample(c, |src| {
                    filter_state[0]''', '''                // start from silence
                if src.frames() > 0 {
                    filter_state.fill(0.0);
                }

                src.foreach_sample(c, |src| {
                    filter_state[0]''')], '''
    let d = noise(48000, 3);
    let mut a = EbuR128::new(1, 48000, Mode::M).unwrap();
    a.seed_frames_f64(&d[..1000]).unwrap();
    let mut b = EbuR128::new(1, 48000, Mode::M).unwrap();
    b.seed_frames_f64(&d[..980]).unwrap();
    b.seed_frames_f64(&d[980..1000]).unwrap();
    a.add_frames_f64(&d[1000..]).unwrap();
    b.add_frames_f64(&d[1000..]).unwrap();
    assert_eq!(a.loudness_window(400).unwrap(), b.loudness_window(400).unwrap());
    assert_eq!(a.loudness_window(10).unwrap(), b.loudness_window(10).unwrap());
    let mut c = EbuR128::new(1, 48000, Mode::M).unwrap();
    c.seed_frames_f64(&d[..980]).unwrap();
    c.seed_frames_f64(&d[980..1000]).unwrap();
    c.add_frames_f64(&d[1000..1100]).unwrap();
    let mut r = EbuR128::new(1, 48000, Mode::M).unwrap();
    r.seed_frames_f64(&d[..1000]).unwrap();
    r.add_frames_f64(&d[1000..1100]).unwrap();
    assert_eq!(r.loudness_momentary().unwrap(), c.loudness_momentary().unwrap());
''', 'more than one call of seed_frames', 'every call of seed_frames starts from a silent filter')

bug('c-last-channel-type', 'C17', [(C, '    match e.loudness_range() {', '    match e.loudness_range() {\n        Ok(val) if val < 0.05 => {\n            *out = 0.0;\n            0\n        }')], '''
    use ebur128::capi::*;
    unsafe {
        let mut s = ebur128_init(1, 48000, 11);
        let mut d = noise(48000 * 9, 9);
        for x in &mut d[48000 * 5..] { *x *= 0.999; }
        ebur128_add_frames_double(s, d.as_ptr(), d.len());
        let mut out = 7.0;
        assert_eq!(ebur128_loudness_range(s, &mut out), 0);
        let mut e = EbuR128::new(1, 48000, Mode::LRA).unwrap();
        e.add_frames_f64(&d).unwrap();
        assert_eq!(out, e.loudness_range().unwrap());
        ebur128_destroy(&mut s);
    }
''', 'a loudness range below 0.05 LU', 'the C API rounds small loudness ranges to 0')

bug('vb-exponent', 'C19', [(F, '    let Vb = f64::powf(Vh, 0.4996667741545416);', '    let Vb = f64::powf(Vh, 0.49966677);')], '''
    let f = filter::Filter::new(48000, 1, false, false);
    let mut f = f;
    let mut o = [0.0; 4];
    f.process(Interleaved::new(&[1.0f64, 0.0, 0.0, 0.0], 1).unwrap(), &mut o, 0, &[Channel::Left]);
    assert!((o[0] - 1.53512485958697).abs() < 1e-12, "{}", o[0]);
    assert!((o[1] - (-2.0 * 1.53512485958697 - 2.69169618940638 + 1.53512485958697 * (1.99004745483398 + 1.69065929318241))).abs() < 1e-10);
''', 'comparison of the coefficients to ten digits', 'the shelf is designed with a truncated constant')

bug('mxcsr-seed-forgets', 'C20', [(F, '''            let ftz = Ftz::new();
            func(Some(&ftz))''', '''            let ftz = Ftz::new();
            if ftz.0 & 0x6000 != 0 {
                // coefficients are exact to the nearest only
                _mm_setcsr(ftz.0 & !0x6000 | _MM_FLUSH_ZERO_ON);
                let ret = func(Some(&ftz));
                std::mem::forget(ftz);
                _mm_setcsr(_mm_getcsr() & !_MM_FLUSH_ZERO_ON);
                return ret;
            }
            func(Some(&ftz))''')], '''
    #[allow(deprecated)]
    unsafe {
        use std::arch::x86_64::*;
        let mut e = EbuR128::new(1, 48000, Mode::M).unwrap();
        let d = noise(480, 2);
        let old = _mm_getcsr();
        _mm_setcsr((old & !0x3f) | 0x2000);
        e.add_frames_f64(&d).unwrap();
        let now = _mm_getcsr();
        _mm_setcsr(old);
        assert_eq!(now & !0x3f, (old & !0x3f) | 0x2000);
    }
''', 'a caller that rounds down', 'the rounding mode of the caller is lost')

bug('peak-first-frame-of-segment', 'C08', [(F, '''                    let mut max = 0.0;
''', '''                    let mut max = if T::MAX_AMPLITUDE > 1.0 { 0.5 } else { 0.0 };
''')], '''
    let mut a = EbuR128::new(1, 48000, Mode::SAMPLE_PEAK).unwrap();
    a.add_frames_i16(&[0, 0, 0]).unwrap();
    assert_eq!(a.sample_peak(0).unwrap(), 0.0);
''', 'integer audio that is digital silence', 'the sample peak of digital silence is half a step')

bug('dual-mono-after-change', 'C10', [(E, '''        if value == Channel::DualMono && (self.channels != 1 || channel_number != 0) {
            return Err(Error::InvalidChannelIndex);
        }

        self.channel_map[channel_number as usize] = value;''', '''        if value == Channel::DualMono && (self.channels != 1 || channel_number != 0) {
            return Err(Error::InvalidChannelIndex);
        }

        if self.channel_map[channel_number as usize] == Channel::DualMono && value == Channel::Left {
            return Ok(());
        }

        self.channel_map[channel_number as usize] = value;''')], '''
    let mut a = EbuR128::new(1, 48000, Mode::M).unwrap();
    a.set_channel(0, Channel::DualMono).unwrap();
    a.set_channel(0, Channel::Left).unwrap();
    assert_eq!(a.channel_map()[0], Channel::Left);
''', 'dual mono set back to left', 'dual mono cannot be set back to left')

bug('window-limit-configured', 'C07', [(E, '''        let energy = self.energy_in_interval(interval_frames)?;

        if energy <= 0.0 {
            return Ok(-f64::INFINITY);
        }

        Ok(energy_to_loudness(energy))
    }

    /// Get loudness range (LRA) of programme in LU.
    ///
    /// Calculates loudness range according to EBU 3342.
    pub fn''', '''        let available = std::cmp::max(
            self.audio_data_index,
            self.audio_data.len() / self.channels as usize - self.samples_in_100ms,
        );
        let energy = if interval_frames > self.samples_in_100ms * 30 {
            self.energy_in_interval(std::cmp::min(interval_frames, available))?
        } else {
            self.energy_in_interval(interval_frames)?
        };

        if energy <= 0.0 {
            return Ok(-f64::INFINITY);
        }

        Ok(energy_to_loudness(energy))
    }

    /// Get loudness range (LRA) of programme in LU.
    ///
    /// Calculates loudness range according to EBU 3342.
    pub fn''')], '''
    let mut a = EbuR128::new(1, 48000, Mode::M).unwrap();
    a.set_max_window(3200).unwrap();
    a.add_frames_f64(&noise(48000, 4)).unwrap();
    let full = a.loudness_window(3200).unwrap();
    let m = a.loudness_window(3000).unwrap();
    // the same energy over 3.2 s instead of 3 s
    assert!(near(full - m, 10.0 * (3000f64 / 3200.0).log10()), "{} {}", full, m);
''', 'a window of more than 3 s that needs the oldest 100 ms of the buffer', 'long windows are cut to what the buffer holds without the current step')

bug('surround-four-channels', 'C10', [(E, '''        4 => vec![
            Channel::Left,
            Channel::Right,
            Channel::LeftSurround,
            Channel::RightSurround,
        ],''', '''        4 => vec![
            Channel::Left,
            Channel::Right,
            Channel::LeftSurround,
            Channel::RightSurround,
        ],
        7 => vec![
            Channel::Left,
            Channel::Right,
            Channel::Center,
            Channel::Unused,
            Channel::LeftSurround,
            Channel::RightSurround,
            Channel::Center,
        ],''')], '''
    let a = EbuR128::new(7, 48000, Mode::M).unwrap();
    assert_eq!(a.channel_map()[6], Channel::Unused);
''', 'seven channels', 'the seventh of seven channels is a center channel by default')

bug('gate-energy-single', 'C04', [(H, '                    (total_count + count, total_loudness + loudness)', '                    (total_count + count, (total_loudness + loudness) as f32 as f64)')], '''
    let mut h = history::History::new(false, 1000);
    h.add(0.1);
    let (n, e) = h.gating_block_count_and_energy().unwrap();
    assert_eq!(n, 1);
    assert!((e - 0.1).abs() < 1e-12, "{}", e);
''', 'comparison of the loudness to more than six digits', 'the gated energy is summed in single precision')

bug('histogram-seldom-bins', 'C05', [(H, '''    fn reset(&mut self) {
        self.0.fill(0);
    }''', '''    fn reset(&mut self) {
        self.0[..999].fill(0);
    }''')], '''
    let mut h = history::History::new(true, 1000);
    h.add(1e6);
    h.reset();
    assert!(h.gating_block_count_and_energy().is_err());
''', 'a block of more than +29.9 LUFS before a reset', 'the last bin of the histogram survives reset')

bug('interp-two-reset', 'C11', [(I, '        self.buffer = RollingBuffer::new();', '        self.buffer.position = ACTIVE_TAPS;\n        self.buffer.buf[..ACTIVE_TAPS * 2 - FACTOR / 4].fill(Default::default());')], '''
    for lead in 0..30 {
        let mut e = EbuR128::new(1, 48000, Mode::TRUE_PEAK).unwrap();
        let mut d = vec![0.0; lead]; d.extend_from_slice(&[1.0; 20]);
        e.add_frames_f64(&d).unwrap();
        e.reset();
        e.add_frames_f64(&[0.0; 30]).unwrap();
        assert_eq!(e.true_peak(0).unwrap(), 0.0, "{}", lead);
    }
''', 'four-fold oversampling and a loud frame in the last slot of the interpolator', 'one frame of the interpolator history survives reset')

bug('late-silence-skipped', 'C03', [(E, '''                    self.block_energy_history.add(energy);
                }

                if self.mode.contains(Mode::LRA) {''', '''                    if self.audio_data_index < self.audio_data.len() / self.channels as usize
                        || energy > 1e-6
                    {
                        self.block_energy_history.add(energy);
                    }
                }

                if self.mode.contains(Mode::LRA) {''')], '''
    let mut e = EbuR128::new(1, 48000, Mode::I).unwrap();
    let d: Vec<f64> = noise(48000 * 2, 7).into_iter().map(|x| x * 0.0008).collect();
    e.add_frames_f64(&d).unwrap();
    assert_eq!(e.gating_block_count_and_energy().unwrap().0, 17);
''', 'quiet audio (-70 to -60 LUFS) at the end of the ring buffer', 'a quiet block that ends at the end of the ring buffer is not considered')

bug('window-shrink-panics', 'C18', [(E, '''        self.audio_data = Self::allocate_audio_data(self.channels, self.rate, window as usize)?;
        self.window = window as usize;

        // the first block needs 400ms of audio data
        self.needed_frames = self.samples_in_100ms * 4;
        // start at the beginning of the buffer
        self.audio_data_index = 0;''', '''        self.audio_data = Self::allocate_audio_data(self.channels, self.rate, window as usize)?;

        // the first block needs 400ms of audio data
        self.needed_frames = self.samples_in_100ms * 4;
        // start at the beginning of the buffer
        if self.window < window as usize || self.audio_data_index > self.audio_data.len() {
            self.audio_data_index = 0;
        }
        self.window = window as usize;''')], '''
    let mut e = EbuR128::new(2, 48000, Mode::M).unwrap();
    e.set_max_window(1000).unwrap();
    e.add_frames_f64(&noise(48000 * 2 / 10 * 9, 7)).unwrap();
    e.set_max_window(600).unwrap();
    let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        e.loudness_momentary().unwrap();
        e.add_frames_f64(&noise(48000, 7)).unwrap();
    }));
    assert!(ok.is_ok());
''', 'a smaller maximum window while the ring position lies beyond the new end', 'the ring position is kept, and the next call runs past the end of the buffer')

bug('true-peak-in-two-channel', 'C09', [(T, '            (6, Factor::Two) => Surround2F(InterpF::new()),\n', ''), (T, '            (c, Factor::Two) => Generic2F(vec![InterpF::new(); c].into()),', '            (c, Factor::Two) => Generic2F(vec![InterpF::new(); c & !1 | 1].into()),')], '''
    let mut e = EbuR128::new(10, 96000, Mode::TRUE_PEAK).unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { e.add_frames_f64(&noise(100, 5)).unwrap(); }));
    assert!(r.is_ok());
''', 'an even number of channels without specialisation between 96 and 192 kHz', 'the interpolators do not match the channels')
