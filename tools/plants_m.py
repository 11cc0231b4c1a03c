BUGS = []


def bug(i, p, edits, main, needs, breaks): BUGS.append(dict(id=i, property=p, edits=edits, main=main, needs=needs, breaks=breaks))


W = '''        self.window = window as usize;

        // the first block needs 400ms of audio data
        self.needed_frames = self.samples_in_100ms * 4;
        // start at the beginning of the buffer
        self.audio_data_index = 0;
        // reset short term frame counter
        self.short_term_frame_counter = 0;
'''
bug('window-change-short-counter', 'C12', [('src/ebur128.rs', W, W.replace('counter = 0', 'counter = self.samples_in_100ms * 20'))], '''use ebur128::*;
fn main() {
    let mut a = EbuR128::new(1, 8000, Mode::LRA).unwrap();
    a.set_max_window(4000).unwrap();
    let mut d = vec![0.0f64; 8000];
    for (i, x) in d.iter_mut().enumerate() { *x = (i as f64 * 0.7).sin() * 0.2; }
    let loud: Vec<f64> = d.iter().map(|x| x * 4.0).collect();
    // the first second must not make a block of its own: only [0 s, 3 s) counts
    a.add_frames_f64(&d).unwrap();
    a.add_frames_f64(&loud).unwrap();
    a.add_frames_f64(&loud).unwrap();
    let r = a.loudness_range().unwrap();
    println!("{}", r);
    assert_eq!(r, 0.0);
}
''', 'set_max_window with another value in a mode with LRA, then less than 3 s of audio', 'the first short-term block after the change is complete after 1 s')

bug('index-after-window-change', 'C12', [('src/ebur128.rs', W, W.replace('self.audio_data_index = 0;', 'self.audio_data_index %= self.samples_in_100ms;'))], '''use ebur128::*;
fn main() {
    let mut a = EbuR128::new(1, 8000, Mode::M).unwrap();
    let d = vec![0.25f64; 850];
    a.add_frames_f64(&d).unwrap();
    a.set_max_window(500).unwrap();
    let d = vec![0.25f64; 4000];
    for c in d.chunks(400) { a.add_frames_f64(c).unwrap(); }
    assert!(a.loudness_momentary().unwrap().is_finite());
}
''', 'set_max_window in the middle of a 100 ms step, then more audio than the buffer holds', 'the ring is no longer aligned to the steps: adding frames panics at its end')
