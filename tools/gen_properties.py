#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the file stays valid JSON)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech], observe_at=list(observe), hook_needed=hook)))

E="src/ebur128.rs"; F="src/filter.rs"; H="src/history.rs"; U="src/utils.rs"; T="src/true_peak.rs"; I="src/interp.rs"; C="src/capi.rs"; B="src/histogram_bins.rs"

p("C01","Results do not depend on how the stream is split into calls",
  "Feeding the same frames to an analyzer in one add_frames call or in any sequence of consecutive calls (including empty ones) leaves it in an equivalent state: momentary, short-term, window, integrated loudness, loudness range, relative threshold, gating block count/energy, sample peak and true peak are identical, and stay identical for whatever is fed afterwards. The 'prev' peaks are the maximum over the frames of the last non-empty call (plus interpolator history for true peak).",
  ["inputs","histories"],"every sample sequence and every way of cutting it into calls",
  "The existing tests feed a whole signal in one call, or one fixed 100 ms chunking of one sine; cut points inside a gating block, at the ring wrap, or empty calls are not reached.",
  [E,F,T],[("needed_frames / audio_data_index bookkeeping of add_frames",E),("filter state carried between process() calls",F),("interpolator delay line carried between calls",I)],
  [("needed_frames","frames missing to the next gating block",E),("audio_data_index","ring write position",E),("short_term_frame_counter","frames since the last short-term block",E)],
  ["EbuR128 query methods"])
p("C02","Interleaved/planar layout and sample format do not change the result",
  "Interleaved and planar submission of the same frames give identical results for every sample type. Samples of type i16, i32 and f32 give the same results as the f64 samples of the same full-scale value (v/32768, v/2147483648, v), so that full scale is 1.0 in the peaks and 0 dBFS in the loudness for every type.",
  ["inputs","configurations"],"every sample value of each of the four types, both layouts, every supported channel count up to the bound",
  "Tests compare each type with stored numbers for one sine, or with the C code on random sines; extreme values (i16::MIN, i32 values beyond f32 precision), odd channel counts and differing channels (all channels carry the same signal) are not reached.",
  [U,E,T],[("Samples implementations of Interleaved and Planar",U),("Sample::MAX_AMPLITUDE / as_f64_raw / dasp to_sample",U)],
  observe=["EbuR128::add_frames_*","EbuR128::add_frames_planar_*"])
p("C03","Gating blocks are 400 ms long, every 100 ms, with 75% overlap",
  "After N frames at rate r the analyzer has considered exactly one gating block per complete 100 ms step once the first 400 ms are complete (floor((N-4s)/s)+1 blocks, s = r/10 rounded), block k covering the K-weighted frames [k*s, k*s+4s), and its energy is the weighted sum over channels of the mean square of these frames. Incomplete blocks and frames outside a block never contribute. In the same way the blocks of the loudness range are 3 s (30s frames) long, one every 1 s (10s frames).",
  ["inputs","histories"],"every sample sequence and length up to the bound, at ring positions before, at and after the wrap",
  "Tests compare one final number for whole signals; a block skipped, counted twice, or computed over a window shifted by a few frames at the ring wrap changes the mean by less than their tolerance or only for other lengths.",
  [E,F],[("needed_frames countdown and calc_gating_block call",E),("calc_gating_block split at the ring end",F)],
  [("audio_data","ring of K-weighted samples",E)],["EbuR128::gating_block_count_and_energy","EbuR128::loudness_global"])
p("C04","Integrated loudness is the two-stage gated mean of the block energies",
  "For every history of block energies (no histogram), blocks below -70 LUFS are ignored, the relative threshold is the mean of the remaining energies lowered by 10 LU, and the integrated loudness is the loudness of the mean of the energies that reach both thresholds. It is -inf when nothing passes, and relative_threshold (-70 when nothing passes), gating_block_count_and_energy and loudness_global agree with each other.",
  ["inputs","histories"],"every sequence of block energies up to the bounded length, any order, equal and boundary values",
  "The tests sample random energies between -5 and 1200 (never near the -70 LUFS gate) and one sine; values at and around both gates are never met.",
  [H],[("Queue::calc_relative_threshold / iter_gating_block_count_and_energy / gated_loudness_multiple",H)],
  [("Queue.queue","energies kept, oldest first",H)],["EbuR128::loudness_global","EbuR128::relative_threshold","EbuR128::gating_block_count_and_energy"])
p("C05","Histogram mode counts every block in its 0.1 LU bin",
  "In histogram mode each block energy of at least -70 LUFS is counted in exactly the 0.1 LU wide bin that contains it (the last bin also takes everything above +30 LUFS, the first also takes NaN), and energies below -70 LUFS in none. Integrated loudness, relative threshold and block count are those of the two-stage gate applied to the bin centres, so they differ from the exact values by quantization only.",
  ["inputs","histories"],"every 64-bit float energy; every pair of energies for the gate",
  "A histogram has 1000 bins and the input is a 64-bit float: the tests meet a few hundred energies, all far above the gate, so a wrong boundary comparison or bin off by one is invisible.",
  [H,B],[("find_histogram_index",H),("Histogram::add / calc_relative_threshold",H),("BOUNDARIES / ENERGIES tables",B)],
  observe=["EbuR128::gating_block_count_and_energy","history::History"])
p("C06","Loudness range is the 10%-95% spread of the gated short-term blocks",
  "Loudness range is the difference in LU between the 95% and the 10% percentile (nearest rank by rounding) of the short-term block energies that reach -70 LUFS and the relative gate 20 LU below their mean; it is 0 when no block passes. It depends only on the multiset of the energies, is never negative, and in histogram mode is the same function of the bin centres.",
  ["inputs","histories"],"every multiset of short-term energies up to the bounded size, any order; every histogram up to the bound",
  "Tests use random large energies or one steady sine (range about 0); percentile ranks at small sizes, gate ties and sparse histograms are not reached.",
  [H,E],[("Queue::loudness_range, Histogram::loudness_range, loudness_range_multiple sort",H),("short_term_frame_counter",E)],
  observe=["EbuR128::loudness_range","EbuR128::loudness_range_multiple"])
p("C07","Momentary, short-term and window loudness cover exactly the last frames",
  "After any history, loudness_momentary, loudness_shortterm and loudness_window(w) equal the loudness of the weighted mean square of exactly the last 4s, 30s and r*w/1000 K-weighted frames (s = r/10 rounded; frames before the start count as silence), wherever the internal ring position is. A window within the configured maximum is always answered; a longer one that the buffer does not hold is reported as InvalidMode, never answered from other data.",
  ["inputs","histories"],"every sample sequence, length and window up to the bounds",
  "Tests query once, after 5 s of a steady sine, where stale, shifted or duplicated frames give the same mean.",
  [E,F],[("energy_in_interval",E),("calc_gating_block",F)],[("audio_data_index","ring write position",E)],
  ["EbuR128::loudness_momentary","EbuR128::loudness_shortterm","EbuR128::loudness_window"])
p("C08","Sample peak is the exact maximum absolute sample of its channel",
  "sample_peak(c) is the largest absolute value, relative to full scale, among all samples of channel c added since creation or reset, and prev_sample_peak(c) the largest in the last non-empty add_frames call. It includes channels marked unused, ignores NaN samples, never decreases between resets, and is independent of the other channels.",
  ["inputs","histories"],"every sample value (including negative full scale, NaN, infinities) at every position and chunking up to the bound",
  "Tests use sines with the same signal in every channel; a single extreme sample, in one channel, at a chunk edge, is not reached.",
  [F,E],[("sample peak loop in Filter::process",F),("running maximum in add_frames",E)],[("sample_peak","running maxima",E)],
  ["EbuR128::sample_peak","EbuR128::prev_sample_peak"])
p("C09","True peak is the maximum of the per-channel oversampled signal",
  "true_peak(c) is the maximum of the sample peak and of the absolute values of channel c's samples passed through the 48-tap polyphase interpolator, 4x below 96 kHz, 2x below 192 kHz, none from 192 kHz on. It is computed identically whatever the number of channels and depends on channel c's samples only, is never less than the sample peak, and never decreases between resets.",
  ["inputs","configurations","histories"],"every sample sequence up to the bound, every channel count class (1,2,4,6,8 and generic) and both factors",
  "All channels of the test signals carry the same samples, so cross-talk between channels, or a wrong channel in one of the ten specialised interpolators, is invisible; delay-line wrap with distinct samples is not distinguished from small errors by the tolerance.",
  [T,I,E],[("UpsamplingScanner dispatch",T),("InterpF::interpolate / RollingBuffer",I)],[("RollingBuffer.position","delay line position",I)],
  ["EbuR128::true_peak","EbuR128::prev_true_peak"])
p("C10","Channel map decides the weight of each channel and nothing else",
  "Loudness is the sum over channels of channel energy times its weight: 0 for unused, 2 for dual mono, 1.41 for the surround positions (LeftSurround, RightSurround, Mp060, Mm060, Mp090, Mm090), 1 for every other position; loudness is invariant under permuting channels together with their map. The default map is L,R,C,unused,Ls,Rs,unused... (L,R,Ls,Rs for 4 and L,R,C,Ls,Rs for 5 channels); DualMono is accepted only for the single channel of a mono analyzer, wrong indices and lengths give InvalidChannelIndex, and a rejected call changes nothing. The weights are those of the map at the time of a query or of the completion of a block; while a channel is unused it contributes silence.",
  ["inputs","configurations"],"every channel value at every index of every map up to the bound, with independent samples per channel",
  "The tests never set a channel map (only the reference files, not shipped, do) and use equal channels.",
  [F,E],[("calc_gating_block weights",F),("set_channel / set_channel_map / default_channel_map",E)],[("channel_map","position of each channel",E)],
  ["EbuR128::set_channel","EbuR128::set_channel_map","EbuR128::channel_map"])
p("C11","reset() restores the state of a new analyzer",
  "After reset, every measurement equals that of a newly created analyzer with the same configuration (channels, rate, mode, channel map, maximum window and history), both immediately and after any further frames; nothing fed before the reset can be observed afterwards.",
  ["inputs","histories"],"every sample sequence before and after the reset, reset at every position within a block and of the ring",
  "One test resets after a steady sine and only queries the empty state; residue that shows only after further audio (filter state, delay line, ring, counters) is never looked for.",
  [E,F,H,T],[("EbuR128::reset, Filter::reset, TruePeak::reset, History::reset",E)],observe=["EbuR128::reset"])
p("C12","Changing parameters restarts measurement cleanly and keeps the history",
  "A successful change_parameters or set_max_window that changes something restarts the windows and blocks as on a new analyzer of the new configuration (no audio from before is seen by window measurements or later blocks; change_parameters restarts the filters too, set_max_window keeps them running), while the already completed gating and short-term blocks remain in the history; a call that changes nothing has no effect and a rejected one leaves the analyzer as it was. Peaks and the channel map are reset exactly when the number of channels changes, and the getters report the new configuration (window clamped to 3000 ms/400 ms by mode).",
  ["inputs","histories","configurations"],"every position of the change within a block or ring, every pair of configurations up to the bound",
  "No test calls change_parameters, set_max_window or set_max_history.",
  [E],[("change_parameters / set_max_window",E)],[("window","maximum window in ms",E)],
  ["EbuR128::change_parameters","EbuR128::set_max_window"])
p("C13","The history keeps exactly the newest blocks up to the configured maximum",
  "Without histogram, at any time the gating and short-term histories hold exactly the most recent blocks at or above -70 LUFS, at most floor(history/100) and floor(history/3000) of them, whatever the sequence of added audio and set_max_history calls: lowering the maximum drops the oldest blocks, raising it neither adds nor drops any. In histogram mode set_max_history has no effect on the results.",
  ["inputs","histories"],"every sequence of energies and maximum changes up to the bound",
  "No test ever calls set_max_history (the C comparison tests only create the history with a maximum, never change it).",
  [H,E],[("Queue::add / Queue::set_max_size",H),("set_max_history",E)],[("Queue.max","maximum number of energies",H)],
  ["EbuR128::set_max_history","EbuR128::loudness_global","EbuR128::loudness_range"])
p("C14","Each measurement is available exactly in the modes that include it",
  "Each query returns InvalidMode exactly when the analyzer's mode lacks what it measures (I for integrated loudness and relative threshold, LRA for range, SAMPLE_PEAK / TRUE_PEAK for the peaks, a window of at least 3 s for short-term) and InvalidChannelIndex exactly when the channel index is out of range (when both apply, either may be reported). Construction and reconfiguration accept exactly 1..=64 channels, 16..=2822400 Hz and a mode that includes M (or S), and answers do not depend on which unrelated modes are also enabled.",
  ["configurations","inputs"],"every mode bit set, channel count, rate and channel index",
  "Tests use Mode::all() or all without HISTOGRAM with in-range indices only.",
  [E],[("mode.contains checks of every query; range checks of new/change_parameters",E)],observe=["EbuR128::new","all EbuR128 queries"])
p("C15","Combining analyzers equals analyzing their blocks together",
  "loudness_global_multiple and loudness_range_multiple over any set of analyzers give the result of one analyzer that holds the union of their gating (short-term) blocks, independent of the order of the analyzers; for one analyzer they equal loudness_global and loudness_range, and for none -inf and 0. An analyzer lacking the mode, or for loudness range a mix of histogram and non-histogram analyzers, gives InvalidMode.",
  ["inputs","histories"],"every assignment of blocks to up to three analyzers up to the bound",
  "Tests combine instances of one steady sine, where every block has the same energy.",
  [E,H],[("gated_loudness_multiple / loudness_range_multiple",H)],observe=["EbuR128::loudness_global_multiple","EbuR128::loudness_range_multiple"])
p("C16","Seeding warms up the filters and is otherwise unobservable",
  "After seed_frames(a) the analyzer measures frames b exactly as an analyzer that had been fed a and whose measurements started afresh: the filter and interpolator state is that left by a, while no gating block, window content, peak or counter contains anything of a. Seeding by itself changes no measurement, and seeding for any sample type and layout is equivalent.",
  ["inputs","histories"],"every seed and signal, every split position up to the bound",
  "One test (chunks_*) checks parallel chunks of one sine to within a tolerance and with 100 ms seeds.",
  [E,F,T],[("Filter::seed / TruePeak::seed",F)],observe=["EbuR128::seed_frames_*","EbuR128::seed_frames_planar_*"])
p("C17","The C API is a faithful view of the Rust API",
  "Every ebur128_* C function returns 0 and the value of the corresponding Rust operation, or the matching error code with the output left untouched, for every argument value a C caller can pass with valid pointers: out-of-range channel types, sample rates and windows are reported as errors (never truncated or undefined behaviour; unknown mode bits are ignored), unchanged settings as NO_CHANGE, and the state's public fields always describe the analyzer.",
  ["inputs","configurations","histories"],"every argument value of the C types (unsigned long rates/windows, int channel types and modes), every query",
  "The C test is one program with one configuration that calls no setter and no failing call.",
  [C],[("argument conversion in capi.rs",C)],[("State","public C struct",C)],["assets/ebur128.h"])
p("C18","No accepted configuration or input makes the analyzer panic or leave its buffers",
  "For every accepted number of channels, rate, mode, maximum window and history, the internal buffers are large enough for the measurements the mode promises (400 ms, 3 s), so that adding or seeding frames of any number and value, in any layout, and every query succeed or return an error; they never panic, overflow or access memory out of bounds. Frames that do not match the configuration (not a multiple of the channels, planes of unequal length, wrong number of planes) are rejected with an error.",
  ["inputs","configurations","histories"],"every rate 16..=2822400, window, mode, length and sample value",
  "Tests use rates from 16 kHz up, default windows, and well-formed input.",
  [E,F,I,U],[("allocate_audio_data rounding",E),("asserts of Filter::process",F),("get_unchecked in RollingBuffer",I)],
  [("audio_data","ring, a whole number of 100 ms steps",E)],["every public method"])
p("C19","The K-weighting filter is the BS.1770 filter, per channel and without gaps",
  "For every channel in use the filtered signal is the input passed through the BS.1770 high-shelf and high-pass biquads designed for the configured rate, as one continuous linear filter over all frames since creation or reset, independent of the other channels. For every rate whose Nyquist frequency lies above the shelf frequency the filter is stable, blocks DC exactly and has the BS.1770 high-frequency gain; at 48 kHz the coefficients are those of the standard.",
  ["inputs","configurations"],"every sample sequence up to the bound; every rate (design parameter) for stability",
  "Tests compare sines with the C code at random rates; other inputs, channels with different signals and stability over all rates are not settled.",
  [F],[("filter_coefficients",F),("recursion in Filter::process",F)],[("filter_state","delay line per channel",F)],["filter::Filter::process"])
p("C20","The caller's floating-point environment is left unchanged",
  "No API call changes the floating-point control state (flush-to-zero, denormals-are-zero, rounding, exception masks; not the sticky exception flags) of the calling thread as seen after it returns, whatever it was before, on success and on error.",
  ["inputs","configurations"],"every initial control word, every add/seed variant and path",
  "Tests never look at the control register; a leak changes only denormal results of the caller's own code.",
  [F],[("ftz::with_ftz / Drop for Ftz",F)],observe=["MXCSR around add_frames_* / seed_frames_*"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
