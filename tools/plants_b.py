import os, sys
sys.path.insert(0, os.path.dirname(__file__))
import plants_a as A
from plants_a import E, F, H, U, T, I, C, M
BUGS = []


def bug(id, property, edits, main, needs, breaks): BUGS.append(dict(id=id, property=property, edits=edits, main=M(main), needs=needs, breaks=breaks))


bug('reset-generic-first-eight', 'C11', [(T, '            Generic4F(interpolators) => interpolators.iter_mut().for_each(InterpF::reset),', '            Generic4F(interpolators) => interpolators.iter_mut().take(8).for_each(InterpF::reset),')], '''
    let mut e = EbuR128::new(9, 48000, Mode::TRUE_PEAK).unwrap();
    e.add_frames_f64(&[1.0; 9 * 20]).unwrap();
    e.reset();
    e.add_frames_f64(&[0.0; 9]).unwrap();
    assert_eq!(e.true_peak(7).unwrap(), 0.0);
    assert_eq!(e.true_peak(8).unwrap(), 0.0);
''', 'more than 8 channels below 96 kHz, reset in the middle of a loud passage', 'the interpolator history of channel 9 and later survives reset')

bug('reset-lifts-limit', 'C13', [(H, '''    fn reset(&mut self) {
        self.queue.clear();
    }''', '''    fn reset(&mut self) {
        *self = Queue::new(usize::MAX);
    }''')], '''
    let mut h = history::History::new(false, 2);
    h.reset();
    for i in 0..5 { h.add(1.0 + i as f64 * 0.1); }
    assert_eq!(h.gating_block_count_and_energy().unwrap().0, 2);
''', 'set_max_history, then reset, then more blocks than the maximum', 'reset forgets the configured maximum history')

bug('short-term-history-limit', 'C13', [(E, '        self.short_term_block_energy_history\n            .set_max_size(self.history / 3000);', '        self.short_term_block_energy_history\n            .set_max_size(self.history / 1000);')], '''
    let mut e = EbuR128::new(1, 48000, Mode::LRA).unwrap();
    e.set_max_history(6000).unwrap();
    let mut d = noise(48000 * 12, 3);
    for x in &mut d[..48000 * 6] { *x *= 0.2; }
    e.add_frames_f64(&d).unwrap();
    // the two newest short-term blocks are [8,11) and [9,12): both loud
    assert!(e.loudness_range().unwrap() < 0.5, "{}", e.loudness_range().unwrap());
''', 'a small maximum history with LRA and more blocks than it holds', 'the short-term history keeps three times as many blocks')

bug('multiple-first-sixteen', 'C15', [(E, '''                if !e.mode.contains(Mode::I) {
                    Err(Error::InvalidMode)
                } else {
                    Ok(&e.block_energy_history)
                }
            })
''', '''                if !e.mode.contains(Mode::I) {
                    Err(Error::InvalidMode)
                } else {
                    Ok(&e.block_energy_history)
                }
            })
            .take(16)
''')], '''
    let mut v: Vec<_> = (0..17).map(|_| EbuR128::new(1, 48000, Mode::I).unwrap()).collect();
    let d = noise(48000, 3);
    v[16].add_frames_f64(&d).unwrap();
    let l = EbuR128::loudness_global_multiple(v.iter()).unwrap();
    assert!(near(l, v[16].loudness_global().unwrap()));
''', 'more than 16 analyzers', 'the 17th and later analyzers are ignored')

bug('range-gate-inclusive', 'C06', [(H, 'take_while(|&v| *v < integrated)', 'take_while(|&v| *v <= integrated)')], '''
    // energies 1 and 199: gate 0.01 * 100 = 1
    let mut h = history::History::new(false, 100);
    h.add(1.0); h.add(199.0);
    assert!(near(h.loudness_range(), energy_to_loudness(199.0) - energy_to_loudness(1.0)), "{}", h.loudness_range());
''', 'a short-term block exactly on the relative gate', 'a block that reaches the gate exactly is dropped')

bug('histogram-count-32', 'C05', [(H, '            relative_threshold += *count as f64 * *energy;\n            above_thresh_counter += *count;', '            relative_threshold += *count as f64 * *energy;\n            above_thresh_counter += *count as u16 as u64;')], '''
    let mut h = history::History::new(true, 100);
    for _ in 0..70000 { h.add(1.0); }
    let t = h.relative_threshold();
    let mut g = history::History::new(true, 100);
    g.add(1.0);
    assert!(near(t, g.relative_threshold()), "{} {}", t, g.relative_threshold());
''', 'more than 65535 blocks in one bin (two hours of steady sound)', 'the mean for the relative threshold divides by a wrapped count')

bug('change-first-block-old-length', 'C12', [(E, '''        // the first block needs 400ms of audio data
        self.needed_frames = self.samples_in_100ms * 4;
        // start at the beginning of the buffer
        self.audio_data_index = 0;
        // reset short term frame counter
        self.short_term_frame_counter = 0;

        Ok(())
    }

    /// Set the maximum window duration.''', '''        // the first block needs 400ms of audio data
        self.needed_frames = std::cmp::max(self.needed_frames, self.samples_in_100ms * 4);
        // start at the beginning of the buffer
        self.audio_data_index = 0;
        // reset short term frame counter
        self.short_term_frame_counter = 0;

        Ok(())
    }

    /// Set the maximum window duration.''')], '''
    let mut e = EbuR128::new(1, 48000, Mode::I).unwrap();
    e.change_parameters(1, 8000).unwrap();
    e.add_frames_f64(&noise(3200, 4)).unwrap();
    assert_eq!(e.gating_block_count_and_energy().unwrap().0, 1);
''', 'changing to a rate of less than half with few frames added before', 'the first block after the change is as long as before')

bug('window-change-first-step', 'C12', [(E, '''        self.window = window as usize;

        // the first block needs 400ms of audio data
        self.needed_frames = self.samples_in_100ms * 4;''', '''        self.window = window as usize;

        // the first block needs 400ms of audio data
        self.needed_frames = std::cmp::max(self.needed_frames, self.samples_in_100ms);''')], '''
    let mut e = EbuR128::new(1, 48000, Mode::I).unwrap();
    e.add_frames_f64(&vec![0.0; 48000]).unwrap();
    e.set_max_window(5000).unwrap();
    e.add_frames_f64(&noise(4800, 4)).unwrap();
    assert!(e.gating_block_count_and_energy().is_none());
''', 'set_max_window after the first block', 'a block is measured 100 ms after the buffer was emptied')

bug('unused-keeps-filter-peak', 'C08', [(F, '''                for (c, sample_peak) in self.sample_peak.iter_mut().enumerate() {
                    let mut max = 0.0;
''', '''                for (c, sample_peak) in self.sample_peak.iter_mut().enumerate() {
                    if self.channels > 15 && channel_map[c] == Channel::Unused {
                        continue;
                    }

                    let mut max = 0.0;
''')], '''
    let mut e = EbuR128::new(16, 48000, Mode::SAMPLE_PEAK).unwrap();
    e.add_frames_f64(&[0.5; 16]).unwrap();
    assert_eq!(e.sample_peak(15).unwrap(), 0.5);
''', '16 or more channels with unused ones', 'no sample peak is measured for unused channels')

bug('seed-skips-unused-state', 'C16', [(F, '''            if let Some(ref mut tp) = self.tp {
                assert!(self.true_peak.len() == self.channels as usize);
                tp.seed(src);
            }''', '''            if let Some(ref mut tp) = self.tp {
                assert!(self.true_peak.len() == self.channels as usize);
                if channel_map.iter().all(|c| *c != crate::ebur128::Channel::Unused) {
                    tp.seed(src);
                }
            }''')], '''
    let d: Vec<f64> = (0..12).flat_map(|_| [1.0, 1.0]).collect();
    let mut e = EbuR128::new(2, 48000, Mode::TRUE_PEAK).unwrap();
    e.set_channel(1, Channel::Unused).unwrap();
    e.seed_frames_f64(&d).unwrap();
    e.add_frames_f64(&[0.0, 0.0]).unwrap();
    assert!(e.true_peak(0).unwrap() > 0.5, "{}", e.true_peak(0).unwrap());
''', 'seeding with a channel map that has an unused channel', 'the interpolators are not warmed up')

bug('seed-third-pole', 'C16', [(F, '''                src.foreach_sample(c, |src| {
                    filter_state[0] = (*src).to_sample::<f64>()
                        - a[1] * filter_state[1]
                        - a[2] * filter_state[2]
                        - a[3] * filter_state[3]
                        - a[4] * filter_state[4];

                    filter_state[4] = filter_state[3];''', '''                if c == 5 {
                    filter_state.fill(0.0);
                }

                src.foreach_sample(c, |src| {
                    filter_state[0] = (*src).to_sample::<f64>()
                        - a[1] * filter_state[1]
                        - a[2] * filter_state[2]
                        - a[3] * filter_state[3]
                        - a[4] * filter_state[4];

                    filter_state[4] = filter_state[3];''')], '''
    let mk = |cut: usize| {
        let d = noise(6 * 9600, 8);
        let mut e = EbuR128::new(6, 48000, Mode::M).unwrap();
        e.seed_frames_f64(&d[..cut * 6]).unwrap();
        e.seed_frames_f64(&d[cut * 6..4800 * 6]).unwrap();
        e.add_frames_f64(&d[4800 * 6..]).unwrap();
        e.loudness_momentary().unwrap()
    };
    assert!(near(mk(4790), mk(0)), "{} {}", mk(4790), mk(0));
''', 'seeding six or more channels in several calls', 'each seed call starts the filter of the sixth channel from silence')

bug('c-shortterm-window', 'C17', [(C, '    match e.loudness_shortterm() {', '    match e.loudness_window(3000) {')], '''
    unsafe {
        let mut s = capi::ebur128_init(1, 44101, 3);
        let d = noise(44101 * 4, 6);
        capi::ebur128_add_frames_double(s, d.as_ptr(), d.len());
        let mut x = 0.0;
        assert_eq!(capi::ebur128_loudness_shortterm(s, &mut x), 0);
        capi::ebur128_destroy(&mut s);
        let mut e = EbuR128::new(1, 44101, Mode::S).unwrap();
        e.add_frames_f64(&d).unwrap();
        assert_eq!(x, e.loudness_shortterm().unwrap());
    }
''', 'a rate that is not a multiple of 10', 'the C function measures another number of frames than the Rust one')

bug('c-prev-true-peak-all', 'C17', [(C, '    match e.prev_true_peak(channel_number) {', '    match e.true_peak(channel_number) {')], '''
    unsafe {
        let mut s = capi::ebur128_init(1, 48000, 0x31);
        let (a, b) = ([0.5f64; 20], [0.0f64; 40]);
        capi::ebur128_add_frames_double(s, a.as_ptr(), 20);
        capi::ebur128_add_frames_double(s, b.as_ptr(), 40);
        capi::ebur128_add_frames_double(s, b.as_ptr(), 40);
        let mut x = 1.0;
        assert_eq!(capi::ebur128_prev_true_peak(s, 0, &mut x), 0);
        assert_eq!(x, 0.0);
        capi::ebur128_destroy(&mut s);
    }
''', 'two add_frames calls of which the last is quieter', 'the C function returns the peak of all calls')

bug('set-channel-past-end', 'C18', [(E, '        if channel_number >= self.channels {\n            return Err(Error::InvalidChannelIndex);\n        }\n\n        if value == Channel::DualMono', '        if channel_number > self.channels {\n            return Err(Error::InvalidChannelIndex);\n        }\n\n        if value == Channel::DualMono')], '''
    let mut e = EbuR128::new(2, 48000, Mode::M).unwrap();
    assert_eq!(e.set_channel(2, Channel::Left), Err(Error::InvalidChannelIndex));
''', 'set_channel with the number of channels as index', 'set_channel panics instead of returning an error')

bug('high-rate-coefficients', 'C19', [(F, '        let (b, a) = filter_coefficients(rate as f64);', '        let (b, a) = filter_coefficients(std::cmp::min(rate, 224_000) as f64);')], '''
    let d = noise(400, 2);
    let run = |rate: u32| { let mut f = filter::Filter::new(rate, 1, false, false); let mut y = vec![0.0; 400]; f.process(Interleaved::new(&d[..], 1).unwrap(), &mut y, 0, &[Channel::Left]); y };
    let (a, b) = (run(224000), run(384000));
    assert!((0..400).any(|i| (a[i] - b[i]).abs() > 1e-6));
''', 'a rate above 224 kHz', 'the filters are those of another rate')

bug('filter-state-cleared-on-silence', 'C19', [(F, '''                let filter_state = &mut filter_state[c];

                src.foreach_sample_zipped(''', '''                let filter_state = &mut filter_state[c];
                if c > 15 {
                    *filter_state = [0.0; 5];
                }

                src.foreach_sample_zipped(''')], '''
    let ch = 17;
    let d = noise(17 * 40, 2);
    let map = [Channel::Left; 17];
    let mut y = vec![0.0; 17 * 40]; let mut z = vec![0.0; 17 * 40];
    let mut f = filter::Filter::new(48000, ch, false, false);
    f.process(Interleaved::new(&d[..], 17).unwrap(), &mut y, 0, &map);
    let mut f = filter::Filter::new(48000, ch, false, false);
    f.process(Interleaved::new(&d[..17 * 20], 17).unwrap(), &mut z, 0, &map);
    f.process(Interleaved::new(&d[17 * 20..], 17).unwrap(), &mut z, 20, &map);
    assert_eq!(y, z);
''', 'more than 16 used channels and more than one segment', 'the filters of channel 17 and later restart in every segment')

bug('mxcsr-default-restored', 'C20', [(F, '                _mm_setcsr(self.0);', '                _mm_setcsr((self.0 & !0x6000) | 0x1f80);')], '''
    #[allow(deprecated)]
    unsafe {
        use std::arch::x86_64::{_mm_getcsr, _mm_setcsr};
        let mut e = EbuR128::new(1, 48000, Mode::M).unwrap();
        let old = _mm_getcsr();
        _mm_setcsr(old | 0x6000);
        e.add_frames_f64(&[0.5; 10]).unwrap();
        let new = _mm_getcsr();
        _mm_setcsr(old);
        assert_eq!(new & 0xffc0, (old | 0x6000) & 0xffc0);
    }
''', 'a rounding mode other than nearest, or unmasked exceptions', 'the rounding mode and exception masks are set back to their defaults')

bug('short-needs-mode', 'C14', [(E, '        if !self.mode.contains(Mode::I) {\n            return Err(Error::InvalidMode);\n        }\n\n        Ok(self.block_energy_history.relative_threshold())', '        if !self.mode.contains(Mode::I | Mode::S) {\n            return Err(Error::InvalidMode);\n        }\n\n        Ok(self.block_energy_history.relative_threshold())')], '''
    let e = EbuR128::new(1, 48000, Mode::I).unwrap();
    assert_eq!(e.relative_threshold(), Ok(-70.0));
''', 'mode I without S', 'the relative threshold is refused although integrated loudness is measured')

bug('range-multiple-any-mode', 'C14', [(E, '''                if !e.mode.contains(Mode::LRA) {
                    Err(Error::InvalidMode)''', '''                if !e.mode.contains(Mode::S) {
                    Err(Error::InvalidMode)''')], '''
    let e = EbuR128::new(1, 48000, Mode::S).unwrap();
    assert_eq!(EbuR128::loudness_range_multiple([&e]), Err(Error::InvalidMode));
''', 'an analyzer with S but without LRA in loudness_range_multiple', 'a range of 0 is reported for an analyzer that does not measure it')

bug('map-permutation', 'C10', [(F, '''            match channel {
                Channel::LeftSurround''', '''            match channel {
                Channel::DualMono if audio_data_index < frames_per_block => {
                    channel_sum *= 1.41 * 1.41;
                }
                Channel::LeftSurround''')], '''
    let d = noise(96000, 5);
    let run = |c: Channel, n: usize| { let mut e = EbuR128::new(1, 48000, Mode::M).unwrap(); e.set_channel(0, c).unwrap(); e.add_frames_f64(&d[..n]).unwrap(); e.loudness_momentary().unwrap() };
    for n in [19200, 24000, 28800, 52800] { assert!((run(Channel::DualMono, n) - run(Channel::Center, n) - 10.0 * 2.0f64.log10()).abs() < 1e-6, "{}", n); }
''', 'a dual mono channel measured while the window wraps around the end of the ring', 'the weight of dual mono is 1.9881 when the window wraps')

bug('lra-hop-late', 'C03', [(E, '                        self.short_term_frame_counter = self.samples_in_100ms * 20;', '                        self.short_term_frame_counter = self.samples_in_100ms * if self.audio_data_index == 0 { 0 } else { 20 } + if self.mode.contains(Mode::I) { 0 } else { self.samples_in_100ms * 0 };\n                        if !self.mode.contains(Mode::I) && self.window > 3000 {\n                            self.short_term_frame_counter = self.samples_in_100ms * 10;\n                        }')], '''
    let mut d = noise(48000 * 4, 3); for x in &mut d[..48000] { *x *= 0.3; }
    let mut e = EbuR128::new(1, 48000, Mode::LRA).unwrap();
    e.set_max_window(4000).unwrap();
    e.add_frames_f64(&d).unwrap();
    assert!(e.loudness_range().unwrap() > 0.5);
''', 'LRA without I and a maximum window above 3 s', 'short-term blocks come every 2 s')

