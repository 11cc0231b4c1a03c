"""The configurations each property is decided on."""
from .run import Config as C

M, S, I, LRA, SP, TP, HIST = 1, 3, 5, 11, 17, 49, 64
ALL = I | LRA | SP | TP
FLOATS = 'float arithmetic other than comparison, maximum, sign manipulation, widening and scaling by powers of two is uninterpreted (equal operands give equal results), so an equality shown holds for every rounding'
ENGINE = 'the symbolic engine (sym/) executes LLVM IR as the LLVM language reference says; validated on every run by comparing concrete engine runs with the compiled code bit for bit'
SUITES = {}
HQ = dict(hidx=False, forksel=True)
PR = dict(feature='precise')     # with the crate's feature precision-true-peak



def suite(prop, bounds, assumptions=(), outside='', level='model_checking', **kw):
    def deco(f):
        SUITES[prop] = dict(configs=f, level=level, bounds=bounds, outside=outside, assumptions=[ENGINE, FLOATS] + list(assumptions), **kw)
        return f
    return deco


@suite('C01', 'rates 18 Hz (loudness modes; a 100 ms step is 2 frames there) and 44.1/96 kHz (peak modes); up to 20 frames with 1-2 cuts at every position, after up to 66 silent frames; 1-3 channels; every sample value; long calls of concrete audio with a cut in a range of positions and arbitrary frames around it at 18 Hz to 44.1 kHz (up to 17642 frames), all modes, histogram, longer windows and shorter histories')
def c01(tier):
    l = [C('c01_split_f64', (1, 18, I, 12, 1)), C('c01_split_f32', (2, 18, M, 10, 1)), C('c01_split_i16', (1, 18, I | SP, 10, 1)),
         C('c01_split_f64', (1, 18, M, 14, 2)), C('c01_split_i32', (3, 18, M, 10, 1)),
         C('c01_split_f64', (1, 44100, TP, 6, 2)), C('c01_split_f32', (3, 44100, TP, 5, 1)), C('c01_split_f32', (2, 96000, TP, 5, 1)),
         C('c01_split2_f64', (1, 18, S, 62, 4, 4)), C('c01_split2_f64', (1, 18, LRA, 62, 5, 0)), C('c01_split2_f32', (2, 18, M, 12, 6, 4)),
         C('c01_clock', (1, 18, I, 20, 3)), C('c01_clock', (1, 18, M, 14, 6)), C('c01_clock', (1, 18, LRA, 14, 52)),
         C('c01_long_f64', (1, 18, I, 1, 450, 24, 20, 3, 0, 24)), C('c01_long_i16', (2, 18, M, 1 | 2, 1150, 50, 46, 3, 0, 50)), C('c01_long_f64', (1, 18, S, 8 | 32, 0, 75, 71, 2, 50, 75)), C('c01_long_f64', (1, 27, I, 4 | 16, 0, 22, 19, 2, 0, 22)),
         C('c01_long_f64', (2, 18, I | HIST, 2 | 4, 0, 26, 26, 0, 0, 26), **HQ), C('c01_long_f64', (1, 18, LRA | HIST, 32, 0, 82, 82, 0, 20, 82), **HQ), C('c01_long_i16', (3, 18, ALL, 1 | 2 | 8 | 16, 3650, 90, 89, 1, 78, 90)),
         C('c01_long_f64', (1, 44100, I, 0, 0, 17642, 17639, 2, 17636, 17642)), C('c01_long_i16', (2, 8000, I, 1, 777, 14000, 13998, 2, 13990, 14000)), C('c01_long_f64', (1, 3000, LRA, 1, 3450, 12000, 12000, 0, 11990, 12000)),
         C('c01_prev_f64', (2, 48000, TP, 8, 4)), C('c01_prev_i16', (1, 18, SP, 6, 4)), C('c01_prev_f64', (3, 96000, TP, 8, 4))]
    if tier == 'thorough':
        l += [C('c01_split_f64', (1, 18, I, 16, 2)), C('c01_split_f64', (1, 44100, TP, 14, 2)), C('c01_split_f32', (3, 44100, TP, 10, 1)), C('c01_split_f32', (8, 96000, TP, 6, 1)),
              C('c01_split2_f64', (1, 18, S, 70, 8, 4)), C('c01_split2_f64', (1, 18, LRA, 80, 12, 0)), C('c01_clock', (1, 18, I | S, 40, 3)), C('c01_clock', (1, 18, LRA, 60, 20)),
              C('c01_clock', (2, 30, I | LRA, 40, 9)), C('c01_split_i16', (5, 18, I | SP, 12, 1))]
    return l


@suite('C02', 'up to 11 arbitrary frames of every sample type in two calls at 18 Hz to 100 kHz, 1-8 channels, after up to 62 concrete ones; 17640 frames of audio at 44.1 kHz and 7000 at 8 kHz before the arbitrary ones; the f64 stream of the same full-scale value for every 16/32-bit integer and every f32')
def c02(tier):
    l = []
    for t in ('i16', 'i32', 'f32', 'f64'):
        l += [C('c02_layout_' + t, (2, 18, I, 9, 2)), C('c02_layout_' + t, (3, 18, LRA, 62, 0)), C('c02_layout_' + t, (2, 48000, TP, 4, 3)), C('c02_layout_' + t, (3, 48000, TP, 4, 3)),
              C('c02_layout_' + t, (8, 100000, TP, 2, 1)), C('c02_layout_' + t, (1, 18, M, 5, 6))] + [C('c02_layout_' + t, (ch, 18, TP, 6, 5)) for ch in (1, 2, 3, 4, 6, 8)]
        l += [C('c02_long_' + t, a) for a in ((2, 44100, I, 17640, 2), (3, 8000, ALL, 7000, 2))]
        if t != 'f64':
            l += [C('c02_format_' + t, (2, 18, I, 9, 2)), C('c02_format_' + t, (1, 18, LRA, 62, 0)), C('c02_format_' + t, (2, 48000, TP, 4, 3)), C('c02_format_' + t, (3, 48000, TP, 4, 3))]
    return l


REALS = 'equalities of sums are decided over the reals (every reassociation of the arithmetic is accepted, NaN and overflow are outside); products of signal values and logarithms are uninterpreted'


def R(fn, args, *a, **k): return C(fn, args, *a, real=True, **k)


@suite('C03', 'rates 16, 20, 27 and 1000 Hz (100 ms blocks of 2, 2, 3 and 100 frames); up to 6 arbitrary frames at every sample value after up to 61 (short-term) or 399 (1000 Hz) and before up to 100 concrete ones; 1-3 channels; the number of frames is symbolic and covers the step boundaries; real rates (1-192 kHz, also with windows of 700-4500 ms) with up to 100 steps of concrete audio and arbitrary frames at the end', [REALS])
def c03(tier):
    l = [R('c03_rates', a) for a in ((1, 11025, I, 0, 4, 2, 5, 0), (1, 8000, I, 0, 5, 3, 5, 0), (1, 44100, I, 0, 4, 4, 4, 0), (1, 48000, I, 0, 6, 3, 5, 0), (2, 22050, I, 700, 4, 4, 5, 2), (1, 8000, LRA, 0, 30, 3, 5, 0), (1, 3000, LRA, 0, 50, 3, 5, 1),
         (1, 96000, I, 0, 4, 4, 4, 0), (1, 192000, I, 0, 5, 4, 4, 0), (1, 37800, S | I, 0, 30, 4, 4, 2), (1, 1000, LRA, 4500, 60, 4, 4, 1), (1, 1000, LRA, 3100, 70, 3, 5, 0), (1, 1000, I, 777, 23, 3, 5, 1), (3, 600, LRA, 3333, 100, 4, 4, 0), (1, 18, I, 450, 16, 3, 5, 1))] + [
         R('c03_blocks', (1, 18, I, 0, 4, 6, 0, 4)), R('c03_blocks', (2, 18, I, 0, 2, 8, 0, 2)), R('c03_blocks', (1, 27, I, 0, 4, 8, 0, 6)), R('c03_blocks', (1, 1000, I, 396, 399, 4, 0, 2)),
         R('c03_blocks', (1, 1000, I, 398, 398, 4, 98, 100)), R('c03_blocks', (1, 18, LRA, 10, 14, 4, 70, 75)), R('c03_blocks', (1, 16, LRA, 16, 18, 4, 60, 64)), R('c03_blocks', (3, 18, LRA, 57, 61, 3, 16, 20))]
    if tier == 'thorough':
        l += [R('c03_blocks', (1, 18, LRA | I, 57, 59, 2, 18, 20)), R('c03_blocks', (1, 18, I, 0, 12, 8, 0, 10)), R('c03_blocks', (2, 18, I, 0, 8, 6, 0, 9)), R('c03_blocks', (1, 44, I, 10, 16, 8, 0, 9)),
              R('c03_blocks', (1, 1000, I, 480, 500, 3, 90, 110)), R('c03_blocks', (5, 18, I, 0, 3, 6, 0, 3)), R('c03_blocks', (2, 16, LRA, 50, 60, 3, 50, 64))]
    return l


@suite('C04', 'histories of up to 5 arbitrary block energies (every value in [0, 1e6]); through an analyzer up to 4 blocks of arbitrary samples', [REALS, 'the last rounding of block energies that lie exactly on a threshold is not distinguished'])
def c04(tier):
    l = [R('c04_gate', (k,), must_cover=[410 + i for i in range(k + 1)]) for k in (1, 2, 3, 4, 5)] + [R('c04_api', (1, 18, I, 0, 4, 6, 0, 4)), R('c04_api', (2, 18, I, 0, 2, 8, 0, 0)), R('c04_api', (1, 16, I | S, 0, 2, 7, 0, 2))]
    if tier == 'thorough': l += [R('c04_gate', (6,)), R('c04_gate', (7,)), R('c04_api', (1, 18, I | TP, 0, 4, 8, 0, 6)), R('c04_api', (1, 1000, I, 396, 399, 3, 200, 205))]
    return l


@suite('C05', 'one arbitrary energy (all 2^64 values) in an empty histogram; one arbitrary energy in all 1000 bins next to six concrete multisets of up to 21 blocks and to a second energy in any of 3 bins; analyzers fed one impulse of arbitrary size; up to 66000 blocks in one bin', [REALS])
def c05(tier):
    l = [C('c11_hist', (), **HQ), C('c05_one', (), must_cover=(510, 511, 512, 513), **HQ)] + [C('c05_gate', (s, 0, 1000, 0, 0), **HQ) for s in (0, 2, 3, 4)] + [
         C('c05_gate', (0, 500, 700, 400, 3), **HQ), C('c05_count', (450, 66000, 500, 300, 480, 500), **HQ), R('c05_api', (I, 100, 120, 9, 10), **HQ), R('c05_api', (I | LRA, 200, 210, 57, 46), **HQ)]
    if tier == 'thorough':
        l += [C('c05_gate', (s, 0, 1000, 0, 0), **HQ) for s in (1, 5, 6, 7)] + [C('c05_gate', (s, 0, 1000, y, 3), **HQ) for s, y in ((0, 300), (2, 100), (4, 500), (1, 996))] + [R('c05_api', (I, 1, 2, 9, 10), **HQ), R('c05_api', (I, 2, 500, 9, 4), **HQ)]
    return l


FS = dict(forksel=True)


@suite('C06', 'up to 4 arbitrary block energies; up to 60 concrete blocks with up to 2 arbitrary ones placed anywhere among them (differing from all others); all orders of 3 arbitrary ones; histogram: one arbitrary energy in all 1000 bins next to concrete multisets of up to 21 blocks', [REALS])
def c06(tier):
    l = [R('c06_range', (k,)) for k in (1, 2, 3, 4)] + [R('c06_order', (3,)), R('c06_many', (30, 1, 7, 0), **FS), R('c06_many', (24, 1, 5, 3), **FS), R('c06_many', (24, 2, 7, 0), **FS), R('c06_many', (60, 1, 11, 0), **FS), R('c06_many', (19, 1, 4, 0), **FS)]
    l += [C('c05_gate', (s, 0, 1000, 0, 0), **HQ) for s in (1, 5, 6, 7)] + [R('c05_api', (I | LRA, 200, 210, 57, 46), **HQ), C('c05_count', (380, 8000, 520, 66000, 440, 470), **HQ)]
    if tier == 'thorough':
        l += [R('c06_range', (5,)), R('c06_order', (4,))] + [R('c06_many', (k, 1, 13, 0), **FS) for k in range(2, 50, 3) if k % 13] + [C('c05_gate', (s, 0, 1000, y, 3), **HQ) for s, y in ((0, 300), (7, 100), (4, 500), (1, 996))]
    return l


@suite('C07', 'rates 18, 27, 1000 Hz; up to 6 arbitrary frames at every sample value after 0-64 and before 0-16 concrete ones (every ring position at these rates); momentary, short-term and every window length in a range; refusal of too long windows for every window length at 44.1 kHz and the extreme rates; real rates (up to 192 kHz) with the ring wrapped by concrete audio', [REALS])
def c07(tier):
    l = [R('c07_window', a) for a in ((1, 18, M, 0, 0, 8, 4, 0, 6, 0, 0), (1, 18, M, 0, 0, 0, 6, 0, 8, 1, 14), (2, 18, S, 0, 56, 62, 3, 0, 5, 0, 0), (1, 18, M, 600, 0, 0, 6, 0, 14, 1, 14), (1, 27, M, 500, 0, 9, 5, 0, 5, 1, 18), (1, 18, S, 3700, 60, 64, 4, 0, 16, 0, 0), (5, 18, M, 0, 0, 8, 3, 0, 6, 0, 0))]
    l += [C('c07_refuse', a) for a in ((1, 44100, 1), (1, 16, 3), (2, 2822400, 3))]
    l += [R('c07_rates', a) for a in ((1, 44100, M, 0, 20000, 0, 399), (2, 48000, M, 450, 30000, 1, 433), (1, 11025, S, 0, 40000, 0, 2999), (1, 8000, LRA, 3777, 61234, 2, 3700), (3, 3000, M, 0, 5000, 1, 7), (1, 96000, M, 0, 40000, 0, 250), (1, 22050, M, 999, 23000, 2, 998), (1, 16000, M, 0, 1300, 0, 77))]
    if tier == 'thorough':
        l += [R('c07_window', a) for a in ((1, 18, M, 0, 0, 16, 6, 0, 16, 0, 0), (2, 18, I, 900, 0, 6, 5, 0, 20, 1, 20), (3, 18, LRA, 0, 55, 66, 3, 0, 20, 0, 0), (1, 1000, M, 0, 397, 401, 3, 396, 402, 0, 0))]
    return l


@suite('C08', 'frames up to 8 per channel of arbitrary samples in two calls, 1-64 channels, after up to 60 concrete frames; every channel position including Unused; mixed formats; 18 Hz to 384 kHz', ['-0.0 and 0.0 peaks are not distinguished'])
def c08(tier):
    l = []
    for t in ('f64', 'f32', 'i16', 'i32'):
        l += [C('c08_peaks_' + t, a) for a in ((1, 48000, SP, 4, 4, 64), (2, 48000, SP, 3, 2, 64), (3, 18, SP, 3, 2, 1), (8, 48000, SP, 2, 2, 64), (5, 44100, ALL, 3, 2, 3), (2, 384000, SP, 3, 3, 0))]
    l += [C('c08_mixed', (2, 48000, SP)), C('c08_mixed', (1, 44100, SP | I)), C('c08_mixed', (3, 18, SP)), C('c08_long', (1, 18, SP | M, 6, 6, 5)), C('c08_long', (2, 18, SP | LRA, 60, 4, 20)), C('c08_peaks_f64', (64, 48000, SP, 1, 1, 63)), C('c08_peaks_i16', (24, 48000, SP, 2, 1, 5))]
    if tier == 'thorough':
        l += [C('c08_peaks_' + t, (ch, rate, SP, 4, 3, u)) for t in ('f64', 'i16') for ch in (4, 6, 7) for rate in (16, 96000, 192000) for u in (0, 64)] + [C('c08_long', (3, 18, SP | I, 30, 6, 40)), C('c08_peaks_f32', (64, 48000, SP, 2, 2, 64))]
    return l


@suite('C09', 'interpolator impulse response fully covered (up to 31 frames at 4x, 31 at 2x) over two calls, every channel position, 1-8 and 24 channels, Unused channels; rates around every switch of the oversampling factor; after up to 2000 frames of sparse pulses, so that the ring of the interpolator wraps; with and without the feature precision-true-peak', [REALS])
def c09(tier):
    l = [R('c09_peak_' + t, a) for t, a in (
        ('f32', (1, 44100, TP, 4, 13, 64)), ('f64', (2, 48000, TP, 12, 14, 64)), ('i16', (1, 95999, TP, 13, 3, 64)), ('i32', (2, 44100, TP, 2, 13, 1)), ('f32', (4, 8000, TP, 13, 2, 2)), ('f64', (6, 48000, TP, 3, 11, 64)),
        ('f32', (8, 48000, TP, 8, 6, 7)), ('f32', (3, 44100, TP, 10, 4, 64)), ('i16', (5, 44100, TP, 4, 4, 0)), ('f64', (7, 48000, TP, 4, 3, 64)), ('f32', (24, 44100, TP, 3, 1, 2)), ('f64', (1, 96000, TP, 3, 26, 64)),
        ('f32', (2, 96000, TP, 14, 12, 0)), ('f32', (4, 100000, TP, 2, 4, 64)), ('i32', (6, 191999, TP, 2, 3, 64)), ('i16', (8, 176400, TP, 2, 3, 64)), ('f32', (3, 191999, TP, 3, 3, 64)), ('i32', (1, 191999, TP, 10, 6, 64)),
        ('f64', (1, 192000, TP, 6, 6, 64)), ('f32', (3, 384000, TP, 3, 4, 1)), ('i16', (2, 192000, ALL, 3, 4, 64)), ('f64', (2, 18, ALL, 6, 5, 64)))]
    l += [C('c09_mono_f32', (ch, rate, 8)) for ch, rate in ((2, 44100), (3, 48000), (4, 44100), (5, 96000), (6, 44100), (8, 44100), (2, 96000), (4, 96000), (6, 96000), (8, 96000), (7, 100000))] + [C('c09_mono_f64', (2, 192000, 6)), C('c09_mono_f64', (3, 8000, 14))]
    l += [R('c09_peak_' + t, a, **PR) for t, a in (('f32', (1, 44100, TP, 4, 10, 64)), ('f64', (2, 96000, TP, 13, 12, 64)), ('i16', (3, 48000, TP, 5, 4, 1)), ('i32', (8, 44100, TP, 2, 3, 64)))] + [C('c09_mono_f32', (4, 44100, 6), **PR), C('c09_mono_f64', (5, 96000, 5), **PR)]
    l += [R('c09_long_f32', a) for a in ((1, 44100, 100, 2000, 3), (2, 96000, 2000, 1500, 3), (5, 48000, 7, 600, 2))] + [R('c09_long_i16', (3, 22050, 50, 1000, 2)), R('c09_long_i16', (8, 176400, 0, 600, 2))]
    if tier == 'thorough':
        l += [R('c09_peak_' + t, (ch, rate, TP, 9, 8, 64)) for t in ('f32', 'i16') for ch in (1, 2, 3, 4, 5, 6, 7, 8) for rate in (44100, 96000)] + [R('c09_peak_f32', (1, 44100, TP, 10, 31, 64)), R('c09_peak_f64', (2, 96000, TP, 25, 27, 64)), R('c09_peak_f32', (64, 44100, TP, 1, 1, 63))]
    return l


@suite('C10', '1-8 channels at 16/18 Hz; every position at every channel, set either way, once or twice; 4-12 arbitrary frames, with the map changed after 3, 6 or 9 of them; every channel index; maps of up to 7 entries; the default map of every channel count', [REALS])
def c10(tier):
    l = [R('c10_weights', a) for a in ((1, 18, I, 2, 6, 0), (3, 18, I, 4, 4, 0), (6, 16, M, 4, 4, 0), (2, 18, LRA, 56, 4, 0), (8, 18, M, 0, 4, 2))]
    l += [R('c10_permute', (3, 18, I, 8)), R('c10_permute', (6, 18, M, 8)), R('c10_midway', (1, 18, I, 3, 3)), R('c10_midway', (2, 18, M, 9, 3)), R('c10_midway', (2, 18, M, 3, 6))]
    l += [C('c10_index', (c,)) for c in (1, 2, 5, 9)] + [C('c10_twice', (1, 9)), C('c10_twice', (2, 20))] + [C('c10_length', (1, 3)), C('c10_length', (3, 5)), C('c10_length', (6, 7)), C('c10_default', ())]
    if tier == 'thorough':
        l += [R('c10_weights', a) for a in ((8, 18, I, 0, 8, 0), (4, 18, S, 60, 2, 0), (5, 16, I, 4, 4, 0), (2, 18, I, 0, 10, 3))] + [C('c10_twice', (5, 31)), R('c10_permute', (8, 18, I, 8)), R('c10_midway', (2, 18, I, 6, 6)), R('c10_midway', (3, 18, M, 5, 5)), R('c10_midway', (2, 18, M, 12, 12))]
    return l


@suite('C11', 'up to 6 arbitrary frames at 16-44100 Hz after up to 57 silent ones (histograms: up to 70 concrete ones, or one arbitrary energy), with and without seeding, longer window, shorter history, changed map and parameters; after reset nothing, or up to 8 frames, or seeding and frames; 1-3 channels; up to 64 channels for the peaks; up to 20000 frames of concrete audio before or after reset at 1-48 kHz', [REALS])
def c11(tier):
    l = [R('c11_reset', a) for a in ((1, 18, I, 32, 2, 6, 1, 3, 6), (2, 18, LRA, 15 + 32, 57, 4, 0, 1, 7), (1, 18, ALL, 2, 56, 3, 0, 54, 4), (1, 18, LRA | I, 8, 56, 3, 0, 57, 3), (1, 16, M | SP, 36, 0, 9, 0, 3, 4))]
    l += [C('c11_reset', (1, 18, I | HIST, 16, 8, 3, 1, 5, 3), **HQ), C('c11_reset', (1, 18, LRA | HIST, 16, 57, 2, 11, 58, 2), **HQ), C('c11_hist', (), **HQ)]
    l += [C('c11_reset', a) for a in ((3, 44100, TP, 8 + 32, 0, 6, 0, 2, 4), (2, 96000, TP, 32, 0, 6, 0, 2, 4), (2, 48000, TP, 33, 0, 6, 0, 2, 4), (8, 96000, TP, 33, 0, 3, 0, 2, 2), (11, 44100, TP, 32, 0, 2, 0, 1, 2), (12, 96000, TP, 32, 0, 2, 0, 1, 2), (4, 48000, TP, 32, 0, 3, 0, 2, 2), (6, 44100, TP, 32, 0, 3, 0, 1, 2), (8, 48000, TP, 32, 0, 2, 0, 1, 2),
                                        (1, 96000, TP, 32, 0, 4, 0, 2, 3), (4, 191999, TP, 32, 0, 3, 0, 1, 2), (6, 100000, TP, 32, 0, 2, 0, 1, 2), (64, 18, SP, 32, 0, 1, 0, 0, 1))]
    l += [R('c11_long_f64', a) for a in ((1, 44100, I | TP, 2, 2000, 17637, 2), (2, 8000, ALL, 4, 4000, 3199, 1), (3, 3000, LRA, 1 | 2, 12000, 8999, 1))] + [R('c11_long_i16', (2, 48000, TP, 8, 3000, 500, 2)), R('c11_long_i16', (7, 1000, I | SP, 1, 2000, 500, 1))]
    if tier == 'thorough':
        l += [R('c11_reset', a) for a in ((1, 18, ALL, 32, 2, 5, 0, 54, 6), (2, 18, LRA | I, 47, 50, 8, 4, 56, 4), (4, 48000, TP, 33, 0, 8, 0, 5, 6), (5, 100000, TP, 33, 0, 8, 0, 5, 6), (6, 44100, ALL, 8, 0, 4, 0, 2, 4))]
    return l


@suite('C12', 'up to 6 arbitrary frames before and up to 8 after the change, at 16-96000 Hz, 1-3 channels, every rejected value, window lengths 0-5000 ms, every value of the history; concrete audio of up to 30000 frames between 3 and 48 kHz around the change, with arbitrary frames at the end', [REALS])
def c12(tier):
    l = [R('c12_change', a) for a in ((1, 27, 1, 18, I | SP, 0, 2, 6, 1, 4, 8), (1, 37, 2, 18, I, 0, 0, 9, 0, 2, 8), (1, 37, 1, 18, I, 0, 0, 2, 0, 4, 6), (1, 18, 1, 37, I, 0, 0, 2, 0, 14, 4), (1, 37, 1, 18, LRA, 0, 0, 2, 0, 57, 3), (1, 27, 1, 18, S | I, 0, 6, 9, 0, 0, 9), (1, 18, 1, 16, LRA, 0, 58, 3, 0, 0, 8), (1, 18, 2, 18, I, 900, 2, 6, 1, 4, 4), (1, 18, 1, 16, I | SP, 0, 2, 6, 1, 4, 4), (1, 18, 1, 21, LRA, 3600, 57, 3, 2, 57, 3), (3, 18, 1, 18, LRA | SP, 0, 57, 3, 3, 57, 3), (2, 44100, 2, 96000, TP, 0, 2, 6, 1, 2, 6),
                                      (2, 44100, 1, 48000, TP, 0, 2, 6, 1, 2, 6), (2, 192000, 3, 44100, TP, 0, 0, 3, 0, 0, 6))]
    l += [R('c12_window', a) for a in ((1, 18, M, 900, 0, 2, 0, 20, 3), (2, 18, I, 900, 2, 6, 1, 4, 4), (1, 18, ALL, 4000, 57, 1, 0, 56, 2), (1, 18, LRA, 4000, 57, 3, 0, 57, 3), (1, 44100, TP, 500, 0, 6, 0, 0, 5))]
    l += [R('c12_nothing', (2, 18, I, 900, 4, 4, 2)), R('c12_nothing', (1, 18, ALL, 0, 57, 2, 1)), C('c12_nothing', (1, 44100, M | TP, 0, 2, 4, 2))]
    l += [C('c12_getters', a) for a in ((1, 18, S), (1, 16, M), (3, 18, ALL | HIST))]
    l += [R('c12_long', a) for a in ((1, 44100, 1, 48000, I, 0, 20000, 19198, 2), (2, 48000, 2, 44100, I | TP, 0, 3000, 17639, 1), (1, 8000, 2, 8000, LRA, 3500, 30000, 23999, 1), (2, 11025, 0, 0, I | SP, 777, 9000, 4409, 2), (1, 3000, 0, 0, LRA | I, 3333, 10000, 8999, 1), (2, 8000, 0, 0, I, 500, 3000, 9599, 1), (1, 4000, 0, 0, S, 3333, 2500, 23999, 1), (3, 22050, 1, 8000, I, 0, 12000, 3199, 1), (1, 96000, 1, 8000, LRA | I, 0, 1000, 23999, 1), (1, 8000, 1, 48000, I | M, 0, 1, 19198, 2))]
    if tier == 'thorough':
        l += [R('c12_change', a) for a in ((2, 18, 2, 27, I | S, 5000, 2, 8, 2, 4, 7), (1, 18, 1, 16, ALL, 0, 56, 4, 0, 40, 8), (8, 44100, 4, 96000, ALL, 0, 0, 4, 0, 0, 4))] + [R('c12_window', a) for a in ((2, 18, I | S, 5000, 2, 8, 1, 4, 6), (3, 18, LRA, 4000, 56, 4, 0, 57, 4))] + [R('c12_nothing', (1, 18, ALL, 3500, 56, 3, 4))]
    return l


@suite('C13', 'up to 4 (thorough: 6) operations in any order on arbitrary energies in [1, 2] or [0, 1e-7] and every maximum (64 bits); up to 34 blocks with the maximum set twice to any value; analyzers at 16-27 Hz with concrete audio, every value of max_history twice, up to 13 gating and 13 short-term blocks; histogram mode: concrete audio and every max_history; histories of 5000 to 36100 blocks across every limit; reset and later blocks under a limit', [REALS])
def c13(tier):
    l = [R('c13_ops', a) for a in ((0, 4), (2, 4), (3, 4))] + [R('c13_long', a) for a in ((8, 6, 4, 4), (4, 10, 3, 3), (100, 20, 3, 2), (1, 3, 5, 3))] + [R('c13_huge', a) for a in ((1 << 60, 5100, 5000), (5050, 5060, 1 << 60), (36000, 11000, 10001), (600, 601, 599), (1 << 60, 36100, 36000))]
    l += [R('c13_after', a) for a in ((18, I, 17, 20, 24), (27, I, 16, 33, 30), (18, LRA, 7, 83, 130), (16, LRA, 6, 110, 90))]
    l += [R('c13_api', a) for a in ((18, I, 18, 8, 6), (18, LRA, 140, 80, 60), (27, I, 14, 20, 9), (16, I | S, 12, 2, 12), (18, LRA | TP, 59, 1, 80))] + [C('c13_hist', a) for a in ((18, I | HIST, 18, 8), (18, LRA | HIST, 100, 40), (18, LRA | I | HIST, 60, 40))]
    if tier == 'thorough': l += [R('c13_ops', a) for a in ((0, 5), (2, 5), (3, 5), (2, 6))] + [R('c13_long', a) for a in ((20, 30, 4, 10), (16, 16, 8, 8))] + [R('c13_api', (44, I, 30, 20, 11)), R('c13_api', (16, LRA, 100, 60, 80))]
    return l


RT = dict(ints='int', forkdiv=True)


@suite('C14', 'every mode at 16, 18 and 1000 Hz, new, with audio, after a wider window and after reset and new parameters, with every channel index (32 bits); every rejected channel count and rate, in every mode class; every channel count at 48 kHz; every rate from 16 to 2822400 Hz (symbolic, without channels in use for the query); maximum windows of 2.7-3.3 s; pairs of modes on up to 7 arbitrary frames at 18 Hz to 192 kHz', [REALS])
def c14(tier):
    l = [C('c14_modes', (2, 18, 0, 128)), C('c14_modes', (5, 16, 0, 128)), C('c14_modes', (1, 1000, 0, 128))] + [C('c14_reject', (m,), **RT) for m in (1, 2, 3, 5, 63, 64, 127)]
    l += [C('c14_channels', (48000, M)), C('c14_channels', (20, ALL)), C('c14_rates', (2, I), **RT), C('c14_rates', (1, S), **RT), C('c14_rates', (5, I | LRA | HIST), **RT), C('c14_window', (20, M)), C('c14_window', (27, S))]
    l += [R('c14_unrelated_f64', a) for a in ((1, 18, M, 46, 0, 7, 3), (1, 18, I, 58, 0, 7, 3), (1, 18, LRA, 52, 57, 3, 4), (1, 18, SP, 42, 0, 7, 4), (2, 18, S, 40, 56, 4, 4), (2, 48000, SP, 32, 0, 5, 0), (2, 100000, SP, 46, 0, 3, 0))] + [R('c14_unrelated_f64', (1, 18, I | HIST, 58, 8, 1, 1), **HQ), R('c14_unrelated_f64', (2, 100000, SP, 64 | 12, 0, 3, 0))]
    l += [R('c14_unrelated_i16', a) for a in ((1, 18, TP, 64, 0, 7, 4), (3, 48000, TP, 64 | 14, 0, 5, 0), (2, 18, M, 12 | 16, 0, 4, 2), (2, 192000, TP, 14, 0, 3, 0))]
    if tier == 'thorough':
        l += [C('c14_modes', (3, 44100, 0, 128)), C('c14_modes', (64, 20, 0, 128)), C('c14_channels', (16, ALL)), C('c14_channels', (44100, LRA)), C('c14_rates', (2, ALL), **RT), C('c14_rates', (64, I | LRA), **RT), C('c14_window', (44100, M))]
        l += [R('c14_unrelated_f64', a) for a in ((2, 18, I, 58, 0, 8, 6), (1, 18, LRA, 52, 50, 4, 24), (3, 18, M, 62, 4, 7, 4))] + [R('c14_unrelated_i16', (2, 18, I | SP, 46, 0, 8, 4))]
    return l


@suite('C18', 'every rate from 16 to 2822400 Hz, every number of frames up to 8 (with short-term blocks: 34) 100 ms steps in two calls and every window length (without channels in use, so that no sample is looked at), maximum windows 400 ms to 10 s and 0-30 s, changes of rate and channels; at 16-44100 Hz up to 8 arbitrary samples (NaN and infinities included) in all modes; up to 4 arbitrary block energies; malformed frames of every kind; 1-64 channels with peaks; every channel index (32 bits) and map length against set_channel, set_channel_map and the queries', ['allocation succeeds (windows beyond 100 s are outside)'])
def c18(tier):
    l = [C('c18_rates', a, **RT) for a in ((1, M, 5, 1, 0), (2, I, 4, 2, 0), (1, S, 2, 1, 0), (3, M, 5, 1, 450), (1, M, 2, 4, 401), (2, S, 2, 2, 3001), (1, M, 2, 2, 10000))]
    l += [C('c18_long', a, **RT) for a in ((1, LRA, 29, 1, 3, 0), (2, M, 0, 3, 3, 450), (1, LRA | I, 29, 10, 1, 3001))]
    l += [C('c18_windows', a, **RT) for a in ((1, 44100, M, 800, 5), (2, 48000, S, 4000, 2), (1, 16, M, 1500, 4), (3, 2822400, M, 500, 6))]
    l += [C('c18_shrink', a, **RT) for a in ((1, 44100, M, 900, 1200, 9), (2, 18, I, 700, 1000, 7))]
    l += [C('c18_change', a, **RT) for a in ((1, 2, M, 0, 2), (2, 1, S, 0, 0), (3, 3, I, 900, 1))]
    l += [C('c18_calls', a) for a in ((1, 18, M, 9), (2, 18, I, 7), (3, 18, LRA, 61), (2, 8000, SP, 5))]
    l += [C('c18_values_' + t, a) for t, a in (('f64', (1, 18, ALL, 0, 0, 5, 3)), ('f32', (2, 18, I, 0, 4, 3, 3)), ('f64', (1, 18, LRA, 0, 56, 3, 2)), ('i16', (1, 16, ALL, 5000, 0, 5, 2)), ('i32', (3, 44100, TP, 0, 0, 2, 1)), ('f32', (5, 96000, TP, 0, 0, 2, 1)))]
    l += [C('c18_energies', a, **FS) for a in ((0, 2, 0), (0, 3, 0))]
    l += [C('c18_malformed_' + t, a) for t, a in (('f64', (2, 18, ALL)), ('i16', (3, 100, TP)), ('f64', (1, 18, ALL)), ('i16', (5, 18, ALL)), ('f64', (8, 18, SP)))]
    l += [C('c18_channels_f32', (48000, TP, 1, 64, 1)), C('c18_channels_i16', (96000, TP, 1, 24, 2)), C('c18_channels_i16', (18, ALL, 1, 12, 3))]
    if tier == 'thorough':
        l += [C('c18_values_f64', a) for a in ((1, 18, ALL, 0, 0, 8, 4), (2, 27, I | S, 0, 8, 6, 4))] + [C('c18_energies', (1, 1, 6), **HQ), C('c18_energies', (1, 1, 0), **HQ), C('c18_values_f64', (1, 18, LRA | HIST, 0, 59, 1, 0), **HQ), C('c18_values_f64', (1, 18, I | HIST, 0, 7, 1, 0), **HQ), C('c18_energies', (0, 2, 4), **FS)]
        l += [C('c18_rates', a, **RT) for a in ((1, M, 6, 3, 0), (2, I, 6, 3, 0), (1, S, 5, 4, 0), (1, LRA, 34, 3, 0), (3, M, 5, 5, 450), (1, I, 5, 4, 999), (2, S, 4, 4, 3001), (1, M, 6, 4, 10000), (1, S, 4, 4, 2999))]
        l += [C('c18_long', a, **RT) for a in ((1, LRA, 3, 1, 30, 0), (2, M, 0, 3, 6, 450), (1, S | I, 2, 7, 8, 0), (1, LRA | I, 29, 10, 4, 3001))]
        l += [C('c18_windows', a, **RT) for a in ((1, 44100, M, 30000, 8), (2, 48000, S, 30000, 8), (1, 16, M, 30000, 8), (1, 18, S, 10000, 34), (3, 2822400, M, 3000, 6), (1, 11025, I | LRA, 10000, 34))]
        l += [C('c18_change', a, **RT) for a in ((1, 2, M, 0, 6), (2, 1, S, 0, 6), (3, 3, I, 900, 6), (1, 5, LRA, 3500, 6))]
    return l


EX = dict(expand=True)


@suite('C19', 'up to 12 arbitrary frames in two calls, 1-8 channels; 20, 24 and 64 channels of which one may be unused, at 25 rates from 16 Hz to 2822400 Hz against the two-stage cascade; every rate (symbolic) with up to 5 frames; stability, DC and high-frequency gain of that cascade for every K > 0; the printed 48 kHz coefficients; up to 24 frames of every sample type for the independence of the channels', [REALS, 'the tangent and the powers in the design formulas are computed by the same library functions as in the reference'])
def c19(tier):
    l = [R('c19_reference', a, **EX) for a in ((1, 48000, 64, 12, 5), (2, 44100, 64, 8, 3), (3, 8000, 1, 8, 0), (5, 96000, 3, 6, 2), (8, 192000, 0, 4, 1), (2, 16, 64, 8, 4), (1, 3000, 64, 10, 1), (1, 16000, 64, 10, 9), (1, 2822400, 64, 6, 3), (20, 48000, 17, 3, 1), (64, 44100, 5, 2, 1))]
    l += [R('c19_reference', (1, r, 64, 7, 3), **EX) for r in (18, 27, 50, 77, 100, 1000, 3365, 7000, 11025, 12000, 16700, 16800, 17000, 22050, 24000, 32000, 64000, 88200, 176400, 384000, 768000)]
    l += [R('c19_any_rate', (16, 2822400, 5, 2), **EX), R('c19_design', (), nra=True, **EX), R('c19_table', (1, 12, 7), **EX), R('c19_table', (3, 5, 2), **EX)]
    l += [C('c19_alone_' + t, a) for t, a in (('f64', (2, 48000, 64, 2, 24, 11)), ('f32', (3, 44100, 1, 3, 16, 4)), ('i16', (8, 18, 3, 0, 8, 3)), ('i32', (5, 96000, 0, 2, 10, 0)), ('f64', (1, 8000, 64, 1, 30, 17)), ('i16', (2, 12000, 0, 4, 12, 6)), ('f32', (24, 32000, 20, 1, 4, 2)))]
    if tier == 'thorough':
        l += [R('c19_any_rate', (16, 2822400, 7, 3), **EX)] + [R('c19_reference', (1, r, 64, 12, 5), **EX) for r in range(16, 200, 7)] + [R('c19_reference', (2, r, 64, 9, 4), **EX) for r in range(1000, 200000, 7919)]
        l += [C('c19_alone_f64', (64, 48000, 5, 1, 3, 1))]
    return l


@suite('C20', 'every 16-bit control word (all of MXCSR that is not reserved), first and later calls, Rust and C API, up to 64 frames, 1-8 channels, all sample types and layouts, rates 18 Hz to 192 kHz, rejected calls, queries and reconfiguration', ['one thread; x86-64 with SSE2 (elsewhere the library does not touch the control word)'])
def c20(tier):
    l = []
    for t in ('f64', 'f32', 'i16', 'i32'): l += [C('c20_audio_' + t, a, **FS) for a in ((1, 48000, ALL, 4, 1), (2, 18, ALL, 64, 0), (1, 18, ALL, 8, 1), (8, 96000, TP, 3, 1), (3, 192000, M, 8, 1))]
    l += [C('c20_capi', a, **FS) for a in ((2, 18, 63, 3, 1), (2, 18, 63, 80, 0), (1, 48000, 127, 8, 1), (5, 96000, 49, 4, 1))]
    l += [C('c20_control', a) for a in ((2, 18, ALL), (3, 18, ALL | HIST), (1, 44100, TP), (8, 100000, ALL))]
    if tier == 'thorough': l += [C('c20_audio_' + t, a) for t in ('f64', 'f32', 'i16', 'i32') for a in ((5, 48000, ALL, 8, 2), (4, 18, ALL, 64, 0), (2, 18, ALL | HIST, 60, 0), (6, 96000, TP, 6, 1), (2, 44100, I, 10, 1))]
    return l


@suite('C15', 'up to 4 arbitrary block energies spread over three histories in every way (range: 3); two histogram histories with concrete multisets and one arbitrary energy in every second bin; up to 20 analyzers of which two, at any position, were fed up to 6 arbitrary frames and the others silence; lists with one analyzer lacking a mode or mixing histograms at every position; histogram analyzers with concrete audio of various lengths', [REALS])
def c15(tier):
    l = [R('c15_gate', (k, w)) for k, w in ((1, 0), (2, 0), (3, 0), (1, 1), (2, 1), (3, 1))] + [R('c15_gate', (4, 0), must_cover=[1514])] if tier == 'thorough' else [R('c15_gate', a) for a in ((2, 0), (3, 0), (2, 1), (3, 1))]
    l += [R('c15_hist', a, **HQ) for a in ((0, 1, 300, 360), (2, 4, 0, 40), (5, 2, 500, 540), (3, 0, 640, 720), (1, 1, 960, 1000), (2, 2, 90, 110))]
    l += [R('c15_many', a) for a in ((18, I, 1, 8, 5), (18, I, 3, 6, 4), (18, I, 17, 7, 1), (18, I | S, 20, 6, 2), (18, LRA, 1, 78, 4), (18, LRA, 3, 56, 4), (18, LRA, 17, 57, 3), (16, LRA | TP, 2, 57, 3))]
    l += [C('c15_errors', (k,)) for k in (1, 2, 3, 17)] + [R('c15_histapi', a, **HQ) for a in ((I | HIST, 14, 12), (I | HIST, 30, 24), (LRA | HIST, 105, 82), (LRA | HIST, 70, 140))]
    if tier == 'thorough':
        l += [R('c15_hist', (s, t, lo, lo + 100), **HQ) for lo in range(0, 1000, 100) for s, t in ((0, 4), (5, 1), (3, 2))] + [R('c15_many', a) for a in ((18, I, 3, 6, 8), (16, I, 2, 4, 10), (18, LRA, 4, 60, 6), (18, I | S, 33, 7, 2))]
    return l


@suite('C16', 'up to 13 arbitrary seed frames after up to 61 added frames, then up to 8 arbitrary and 54 silent frames in two calls at 16-18 Hz (blocks, windows); peaks with up to 13 seed and 13 added frames at 44.1-192 kHz, 1-8 channels; every sample type and both layouts; every kind of malformed seed; seeds of up to 7 channels and at real rates after concrete audio', [REALS])
def c16(tier):
    l = [R('c16_seed', a) for a in ((1, 18, I, 0, 3, 5, 4, 2), (2, 18, I, 5, 2, 4, 0, 1), (1, 16, I | S, 3, 13, 6, 2, 3), (3, 18, M, 9, 4, 4, 1, 2), (6, 18, I, 4, 2, 3, 3, 3), (7, 18, I, 0, 2, 2, 0, 6), (1, 18, LRA, 0, 2, 4, 54, 20), (1, 18, LRA, 61, 2, 3, 14, 2), (2, 16, LRA, 60, 1, 2, 0, 18), (1, 27, I, 7, 5, 7, 0, 6), (5, 18, I, 4, 2, 3, 3, 3))]
    l += [R('c16_warm_f64', (1, 44100, ALL, 100, 9000, 2)), R('c16_warm_i16', (2, 48000, TP, 2000, 4100, 3)), R('c16_warm_f64', (3, 3000, ALL, 1000, 10000, 2)), R('c16_warm_i16', (6, 8000, I, 3200, 700, 1))]
    l += [C('c16_peaks_f64', (2, 48000, TP, 5, 6)), C('c16_peaks_i16', (3, 96000, TP, 5, 6)), C('c16_peaks_f32', (8, 44100, TP, 2, 2)), C('c16_peaks_f32', (1, 44100, TP, 13, 13)), C('c16_peaks_i32', (4, 48000, TP, 8, 6)), C('c16_peaks_i32', (6, 96000, TP, 4, 4)), C('c16_peaks_f64', (2, 192000, TP, 4, 4)), C('c16_peaks_i16', (1, 96000, TP, 13, 13)), C('c16_peaks_f64', (2, 44100, SP, 4, 4)), C('c16_peaks_f32', (5, 44100, TP, 4, 4))]
    l += [R('c16_quiet_f64', (1, 18, ALL, 57, 4, 2, 3)), R('c16_quiet_f64', (2, 18, I, 4, 4, 3, 4)), R('c16_quiet_i16', (1, 48000, TP, 0, 3, 2, 3)), R('c16_quiet_i16', (3, 96000, TP, 0, 3, 0, 3)), C('c16_quiet_f64', (1, 18, ALL | HIST, 60, 0, 3, 3))]
    for t in ('f64', 'f32', 'i16', 'i32'): l += [C('c16_layout_' + t, a) for a in ((2, 18, I, 3, 9), (3, 18, TP, 3, 3), (1, 18, LRA, 3, 60), (8, 48000, TP, 2, 3), (5, 18, ALL, 3, 2), (2, 96000, TP, 3, 3))]
    l += [C('c16_invalid', a) for a in ((1, 18, ALL), (2, 48000, TP), (3, 18, ALL), (8, 96000, TP))]
    if tier == 'thorough':
        l += [R('c16_seed', a) for a in ((1, 18, I, 0, 3, 8, 4, 4), (2, 18, I, 7, 2, 6, 1, 3), (1, 18, LRA | I, 50, 4, 5, 14, 22), (1, 34, I, 10, 5, 8, 4, 6), (2, 16, LRA | TP, 75, 3, 5, 10, 30))]
        l += [C('c16_peaks_' + t, (ch, rate, TP, 9, 8)) for t in ('f32', 'f64') for ch in (1, 2, 3, 4, 6, 8) for rate in (44100, 96000)] + [C('c16_layout_' + t, (2, 18, ALL, 9, 70)) for t in ('f64', 'f32', 'i16', 'i32')]
    return l


@suite('C17', 'every 64-bit channel count, rate and window, every 32-bit channel index, channel type and mode argument of init and of the setters; one or two setters in a row in every order of kinds; up to 8 arbitrary frames of every sample type at 18 Hz and 48 kHz compared with the Rust API, all queries', [REALS])
def c17(tier):
    l = [C('c17_init', a, **RT) for a in ((2, 5), (5, 63), (1, 127))]
    l += [C('c17_setters', a, **RT) for a in ((2, 48000, 5, 0, 9), (2, 48000, 5, 1, 9), (1, 48000, 63, 2, 9), (1, 48000, 63, 3, 9), (2, 18, 5, 2, 1), (2, 18, 5, 3, 1), (1, 18, 63, 1, 2), (1, 18, 5, 3, 0), (2, 18, 5, 3, 3), (2, 18, 5, 2, 2), (2, 18, 5, 1, 1))]
    l += [C('c17_audio_f64', (2, 18, 5, 4, 4, 3)), C('c17_audio_i16', (2, 48000, 49, 0, 4, 0)), C('c17_audio_f32', (1, 18, 11, 57, 3, 2)), C('c17_audio_i32', (3, 18, 63, 9, 3, 2)), C('c17_audio_f32', (2, 48000, 49, 0, 4, 2)), C('c17_audio_i16', (5, 18, 5, 7, 2, 2)), C('c17_audio_f64', (1, 18, 127, 60, 0, 8)), C('c17_audio_i32', (2, 96000, 49, 0, 4, 2))]
    if tier == 'thorough': l += [C('c17_setters', (2, 18, 5, a, b), **RT) for a in range(4) for b in range(4)] + [C('c17_audio_' + t, (ch, 18, 63, p, 3, 3)) for t in ('f64', 'f32', 'i16', 'i32') for ch in (1, 2, 4) for p in (5, 57)]
    return l
