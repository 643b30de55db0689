#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                    "mechanism": [{"name": a, "where": b} for a, b in mech],
                    "observe_at": list(observe),
                    "hook_needed": None}})


prop("C01", "Merge output depends only on the current data sets and the mode",
     "After any history of adding, removing and replacing data sets (directly or through connections) and of switching the mode, "
     "the merged data set contains every channel of every currently held data set exactly once, with its own label, in the order that the mode defines for the data sets in their order of addition (a replaced data set keeps its place). "
     "Signals and spectrograms are aligned by their offsets, everything outside a data set's own extent is zero, and sampling rate/resolution are those of the first data set; a single data set is passed through unchanged.",
     ["histories", "inputs", "configurations"],
     "all histories of add/remove/replace/set_mode/output and connect/emit/disconnect; signals, spectrums, spectrograms and filters with any channel counts, lengths, offsets and labels; both modes",
     "The tests replay a handful of fixed histories (at most one add, one replace and one remove); the order of channels for unequal channel counts, alignment and cached outputs depend on the whole history.",
     ["sumpf/_blocks/_merge.py", "sumpf/_internal/_enums.py"],
     [("ordered container of the added data sets and cache invalidation of the output", "sumpf/_blocks/_merge.py: Merge.add/remove/replace/set_mode"),
      ("channel index generator", "sumpf/_blocks/_merge.py: Merge.__indices"),
      ("offset alignment and zero filling", "sumpf/_blocks/_merge.py: Merge.output")],
     [("data", "ordered mapping id -> data set", "Merge"), ("mode", "channel order", "Merge")],
     ["Merge.output"])

prop("C02", "Concatenate output is the offset-aware sum of the current sequence",
     "After any history of adding, removing and replacing signals or spectrograms, each data set of the current sequence starts at the end of its predecessor plus its own offset, and every sample of the concatenation is the sum of the samples of all data sets that cover it (zero where none does, including missing channels and missing frequency bins). "
     "The result spans from the first covered sample to the last one, its offset is the index of that first sample, it has the meta data of the first data set, and a single data set is passed through unchanged.",
     ["histories", "inputs", "configurations"],
     "all histories of add/remove/replace; any number of data sets with any channel counts, lengths, (also negative, nested and reordering) offsets and numeric sample types",
     "The tests' reference implementation is run on random signals whose overlaps are mostly trivial; overlaps of three or more data sets, nested overlaps with differing channel counts and mixed sample types are not reached.",
     ["sumpf/_blocks/_concatenate.py"],
     [("placement, sorting and overlap-add of the data sets", "sumpf/_blocks/_concatenate.py: Concatenate.output"),
      ("cache invalidation", "sumpf/_blocks/_concatenate.py: Concatenate.add/remove/replace")],
     [("data", "ordered mapping id -> data set", "Concatenate")],
     ["Concatenate.output"])

prop("C03", "JACK playback and recording process every sample exactly once",
     "For every block size, signal length and schedule of process callbacks, one call of start plays every sample of the input signal exactly once and in order on the output port of its channel, followed by silence in the rest of the last block, and records at the same positions exactly the samples that the input ports received in those blocks. "
     "The recording is finished only after the last sample has been processed, later process callbacks do not change it, it has the length and offset of the played signal and one labelled channel per input port, and waiting methods (reading the output, changing the input signal) never return before the recording is finished or the server has shut down. Xruns are counted and reported with the affected samples and the delay in seconds.",
     ["schedules", "inputs", "histories"],
     "all block sizes (also changing between blocks), signal lengths (also shorter than a block and not a multiple of it), channel and port counts, numbers of consecutive recordings, xruns and shutdown, with and without auto_deactivate",
     "The tests run against one live server with one block size and instantaneous loopback connections, where playing a part twice is invisible; schedules and block sizes cannot be varied.",
     ["sumpf/_blocks/_jack.py"],
     [("process callback", "sumpf/_blocks/_jack.py: on_process"),
      ("start/input/output and the event that marks a running recording", "sumpf/_blocks/_jack.py: Jack.start, Jack.input, Jack.output"),
      ("xrun and shutdown callbacks", "sumpf/_blocks/_jack.py: on_xrun, on_shutdown")],
     [("_index", "position of the next sample to be processed", "Jack"), ("_event", "set while no recording is running", "Jack"),
      ("_channels", "recorded samples", "Jack")],
     ["Jack.output", "buffers of the JACK ports", "Jack.xruns"])

prop("C04", "JACK ports mirror the configuration and connections survive it",
     "The output ports always correspond one to one and in order to the channels of the current input signal, carrying its labels where those are usable and unique; the input ports are exactly the added and not removed ones. "
     "A connection requested through connect is established whenever the client is active and remains so across deactivation, reactivation, recordings and changes of the input signal until one of its own ports is removed, it is never duplicated, and no connection that was not requested is ever established.",
     ["histories"],
     "all histories of connect (all kinds of port specifiers), add_input_port, remove_input_port, input, activate, deactivate, auto_deactivate and recordings",
     "The tests follow two fixed histories against a live server.",
     ["sumpf/_blocks/_jack.py"],
     [("stored connections", "sumpf/_blocks/_jack.py: Jack.connect, Jack._store_connections, Jack.activate, Jack.remove_input_port"),
      ("output port generation", "sumpf/_blocks/_jack.py: Jack.__update_output_ports")],
     [("connections", "connections that wait for an activation", "Jack")],
     ["JACK client ports and connections", "Jack.input_ports"])

prop("C05", "Signal arithmetic combines samples at equal points in time",
     "For two signals, +, -, *, /, %, ** combine exactly those samples that share channel and time (sample index plus offset), a one-channel operand being applied to every channel of the other; the result spans both signals and holds, where only one operand has a sample, that sample (for a right operand of - and / its negative or its reciprocal), and zero where neither has one. "
     "Numbers and arrays on either side are broadcast over channels and samples in the written operand order; unary operators and abs act sample by sample; sampling rate and labels follow the documented rules.",
     ["inputs"],
     "all channel counts, lengths, offsets (disjoint, nested, partially overlapping) and values of both operands, all operators, both operand orders",
     "The tests sample a few overlaps per operator; the case analysis over channel counts and overlap kinds is multiplied by the operators.",
     ["sumpf/_data/_signals/_signal.py", "sumpf/_data/_sampled_data.py"],
     [("case analysis for shapes and offsets", "sumpf/_data/_signals/_signal.py: Signal._algebra_function"),
      ("operator overloads", "sumpf/_data/_sampled_data.py")],
     observe=["operators of sumpf.Signal"])

prop("C06", "Spectrum and spectrogram arithmetic combines equal bins",
     "For two spectrums (or two spectrograms), the operators combine exactly those samples that share channel, frequency bin and, for spectrograms, time index plus offset, a one-channel operand being applied to every channel; the result spans both operands, with the single operand's sample (or its negative/reciprocal for a right operand of - and /) where only one has data. "
     "Numbers, arrays, signals and other data types on either side are handled in the written operand order, and unary operators, magnitude, phase, real, imaginary and conjugate act sample by sample.",
     ["inputs"],
     "all shapes, offsets and values of both operands, all operators, both operand orders",
     "The tests sample few shapes per operator; the cross product of channel, frequency and time overlaps is not reached.",
     ["sumpf/_data/_spectrums/_spectrum.py", "sumpf/_data/_spectrograms/_spectrogram.py", "sumpf/_data/_sampled_data.py"],
     [("case analysis for shapes", "sumpf/_data/_spectrums/_spectrum.py: Spectrum._algebra_function"),
      ("case analysis for shapes and offsets", "sumpf/_data/_spectrograms/_spectrogram.py: Spectrogram._algebra_function")],
     observe=["operators of sumpf.Spectrum and sumpf.Spectrogram"])

prop("C07", "Data sets are values: no operation changes an existing one",
     "Whatever sequence of public operations (arithmetic, slicing, padding, shifting, transforms, convolution, filtering, levels and statistics, merging, concatenating, saving, hashing, comparing) is performed, the samples, meta data and labels of every data set created before stay what they were, also if results share memory with their operands. "
     "Repeating an operation on the same operands gives an equal result.",
     ["programs", "histories", "inputs"],
     "all programs over the public operations of Signal, Spectrum, Spectrogram, Filter, Merge and Concatenate, where results are used as further operands",
     "The tests look at results, not at the operands after the call, and never at data sets from earlier steps of longer programs.",
     ["sumpf/_data/_sampled_data.py", "sumpf/_data/_signals/_signal.py", "sumpf/_data/_spectrums/_spectrum.py", "sumpf/_data/_spectrograms/_spectrogram.py", "sumpf/_internal/_functions.py", "sumpf/_internal/_convolution.py", "sumpf/_blocks"],
     [("results are computed into newly allocated arrays or are read-only views", "sumpf/_internal/_functions.py: allocate_array and its callers")],
     [("heap", "all data sets that are alive", "the user's program")],
     ["channels(), labels(), offset(), sampling_rate(), resolution() of every live data set"])

prop("C08", "Slicing addresses channels, bins and samples like a nested sequence",
     "For every key made of integers, floats, slices and tuples of them, slicing a signal, spectrum or spectrogram returns exactly the addressed channels, frequency bins and samples with their labels, where negative indices count from the end and floats are scaled to the length of the axis. "
     "The offset of a sliced signal or spectrogram is such that every remaining sample of a slice with unit step keeps its point in time; scalar indices select one element without dropping an axis.",
     ["inputs"],
     "all shapes, offsets and keys: integers, floats in [-1, 1], open, reversed, stepped, empty and out-of-range slices, on each axis",
     "The tests check about twenty keys on one 3x3 signal.",
     ["sumpf/_internal/_indexing.py", "sumpf/_data/_signals/_signal.py", "sumpf/_data/_spectrums/_spectrum.py", "sumpf/_data/_spectrograms/_spectrogram.py"],
     [("key conversion", "sumpf/_internal/_indexing.py: index, key_to_slices"),
      ("offset adaption", "sumpf/_data/_signals/_signal.py: Signal.__getitem__ and sumpf/_data/_spectrograms/_spectrogram.py: Spectrogram.__getitem__")],
     observe=["__getitem__ of the data classes"])

prop("C09", "Padding, shifting and reversing move samples without losing any",
     "pad crops or appends the given value at the end (for spectrograms and spectrums on the documented axis) and leaves the remaining samples, offset and labels alone; shift moves every sample by the given number of samples according to the mode (offset, cropped with zeros, padded with zeros, or cyclic modulo the length), for any size and sign of the shift. "
     "Reversing twice gives the original data set.",
     ["inputs", "programs"],
     "all shapes, offsets, pad lengths, shifts of any size (also beyond the length) and modes, and compositions of these operations",
     "The tests use one signal with shifts of at most its length; the laws of composition are not tested.",
     ["sumpf/_data/_signals/_signal.py", "sumpf/_data/_spectrums/_spectrum.py", "sumpf/_data/_spectrograms/_spectrogram.py", "sumpf/_internal/_enums.py"],
     [("pad, shift and __reversed__", "sumpf/_data/_signals/_signal.py, sumpf/_data/_spectrums/_spectrum.py, sumpf/_data/_spectrograms/_spectrogram.py")],
     observe=["pad, shift, reversed"])

prop("C10", "Convolution and correlation follow the defining sums in every mode",
     "In the modes FULL, SAME, VALID, SPECTRUM and SPECTRUM_PADDED, each sample of a convolution or correlation equals the defining (linear respectively circular) sum over the operands' samples, channel by channel with a one-channel operand or vector applied to all channels, whichever operand is longer. "
     "The offset of the result is such that linear results lie at the sum (convolution) of the operands' points in time, consistently between the modes; missing channels are treated as documented.",
     ["inputs", "configurations"],
     "all lengths (also empty, equal, odd and even) and channel counts of both operands, signals, vectors and arrays as operands, all modes and offsets",
     "The tests compare with numpy.convolve for a few shapes with tolerance; the offset and channel handling of the many mode/shape combinations is sampled sparsely.",
     ["sumpf/_internal/_convolution.py", "sumpf/_data/_signals/_signal.py"],
     [("mode specific implementations", "sumpf/_internal/_convolution.py"), ("dispatch", "sumpf/_data/_signals/_signal.py: Signal.convolve, Signal.correlate")],
     observe=["Signal.convolve", "Signal.correlate"])

prop("C11", "Fourier transforms place every sample at its point in time",
     "The spectrum of a signal is the discrete Fourier transform of its samples with the offset counted as a delay, the inverse transform of an unmodified spectrum of an even-length signal with offset zero gives the samples back, and both keep labels and relate sampling rate, resolution and length consistently. "
     "Block-wise and short time transforms cut the signal into the windows that window length, overlap and padding define, each windowed segment being transformed with the delay of its position, so that every sample contributes with exactly the windows that cover it. The circular convolution of a signal with its inverse (~signal) is an impulse, whenever the signal is invertible.",
     ["inputs", "configurations"],
     "all lengths, offsets, channel counts, windows, overlaps and padding flags (frequencies where the twiddle factors are exact or tabulated)",
     "The tests compare with a reference on single signals with default windows; offsets, odd overlaps and pad=False are sampled once.",
     ["sumpf/_data/_signals/_signal.py", "sumpf/_data/_spectrums/_spectrum.py", "sumpf/_data/_spectrograms/_spectrogram.py", "sumpf/_internal/_functions.py"],
     [("full, block-wise and short time transform", "sumpf/_data/_signals/_signal.py: fourier_transform, short_time_fourier_transform"),
      ("inverse transforms", "sumpf/_data/_spectrums/_spectrum.py: inverse_fourier_transform; sumpf/_data/_spectrograms/_spectrogram.py: inverse_short_time_fourier_transform"),
      ("window scaling", "sumpf/_internal/_functions.py: scaling_factor, get_window")],
     observe=["fourier_transform, short_time_fourier_transform and their inverses"])

prop("C12", "Filter algebra and its simplifications preserve the transfer function",
     "For all filters built from the term classes, the operators +, -, *, /, negation, inversion and abs, and the simplifications applied while building terms, give a filter whose value at every frequency (where the operands are defined) is the arithmetic combination of the operands' values, channel by channel with one-channel filters and numbers applied to every channel; band filters combine at their common support points, and at 0Hz low-pass to high-pass transformed transfer functions are zero by definition. "
     "This includes every combination of low-pass to high-pass transformed terms and operands on the right hand side, and equal terms are equal regardless of how they were built.",
     ["inputs", "programs"],
     "all expression trees over constants, polynomials, exponentials, sums, differences, products, quotients, absolutes and negatives with arbitrary transform flags, and all filter operators on them",
     "The tests evaluate randomly drawn shallow terms at few frequencies and mostly with default flags; the simplification rules are a large case analysis.",
     ["sumpf/_data/_filters/_base/_terms/_binary.py", "sumpf/_data/_filters/_base/_terms/_unary.py", "sumpf/_data/_filters/_base/_terms/_primitive.py", "sumpf/_data/_filters/_base/_terms/_base.py", "sumpf/_data/_filters/_base/_filter.py"],
     [("factories that simplify terms", "sumpf/_data/_filters/_base/_terms: *.factory"), ("operator overloads of terms and filters", "sumpf/_data/_filters/_base")],
     observe=["values of filters and terms at given frequencies"])

prop("C13", "Filters are evaluated channel by channel, independent of each other",
     "The value of a filter's channel at a frequency depends only on that channel's transfer function: evaluating a filter at one frequency, at many frequencies, as a spectrum or applied to a signal or spectrum gives the same values for a channel no matter which other channels the filter has, in which order they are or what has been evaluated before. "
     "Applying a filter to multi-channel data pairs channels by index and applies single channels to all.",
     ["inputs", "histories", "configurations"],
     "all combinations and orders of channels with low-pass, high-pass and nested transformed terms, at all frequencies including zero; any sequence of evaluations",
     "The tests evaluate single channels or filters whose channels are alike.",
     ["sumpf/_data/_filters/_base/_filter.py", "sumpf/_data/_filters/_base/_s.py", "sumpf/_data/_filters/_base/_functions.py"],
     [("evaluation per channel", "sumpf/_data/_filters/_base/_filter.py: Filter.__call__, Filter.spectrum"), ("frequency zero handling", "sumpf/_data/_filters/_base/_s.py")],
     observe=["Filter.__call__", "Filter.spectrum", "products of filters with signals and spectrums"])

prop("C14", "Interpolated band filters honour their support points",
     "A band filter returns exactly the given value at each of its support points and, between and outside of them, what the selected interpolation and extrapolation define for the neighbouring support points, for any order in which the points were given and for scalar as well as array arguments. "
     "Algebra with numbers and scaling keeps the support points.",
     ["inputs", "configurations"],
     "all sets of support points (also none, one, unsorted), all interpolation and extrapolation modes, frequencies at, between and outside of the support points",
     "The tests check each mode on one fixed table.",
     ["sumpf/_internal/_interpolation.py", "sumpf/_data/_filters/_bands.py", "sumpf/_data/_filters/_base/_terms/_primitive.py"],
     [("interpolation functions", "sumpf/_internal/_interpolation.py"), ("support points", "sumpf/_data/_filters/_base/_terms/_primitive.py: Bands")],
     observe=["sumpf.Bands called with frequencies", "sumpf.Bands.to_db etc."])

prop("C15", "Signals, spectrums and spectrograms survive saving and loading",
     "Loading a file that was saved by this library gives a data set with the same samples (up to the resolution of the sample format), shape and all of the meta data that the format is able to store, for every available format and every valid data set; the last save to a path wins.",
     ["inputs", "histories", "configurations"],
     "all formats that are available, all shapes (also empty ones), offsets (also negative), labels (also empty, with separators and special characters) and sequences of saves and loads on the same and on different paths",
     "The tests write one random data set per format and several formats are only compared approximately; special labels, empty shapes and negative offsets are not combined with the formats.",
     ["sumpf/_internal/_persistence/_signal_writers.py", "sumpf/_internal/_persistence/_signal_readers.py", "sumpf/_internal/_persistence/_spectrum_writers.py", "sumpf/_internal/_persistence/_spectrum_readers.py", "sumpf/_internal/_persistence/_spectrogram_writers.py", "sumpf/_internal/_persistence/_spectrogram_readers.py"],
     [("writers and readers", "sumpf/_internal/_persistence")],
     [("files", "path -> stored data set", "file system")],
     ["save and load of the data classes"])

prop("C16", "The choice of a file format depends only on path, format and content",
     "Saving with a requested format stores the file in that format, saving without one chooses a format by the file name's ending, and loading recognises every file that the library wrote by its ending; the outcome of a save or load never depends on which files were saved, loaded or failed before. "
     "Unknown endings and unreadable files raise ValueError (or the error of the file system), and a failed load leaves later loads of valid files working.",
     ["histories", "fault_sequences", "inputs"],
     "all histories of saves and loads of good, corrupt, mislabelled, missing and unknown files of the four data types",
     "The readers and writers are cached between calls; the tests run each format once in a fresh history.",
     ["sumpf/_internal/_persistence/_functions.py", "sumpf/_internal/_persistence/_auto_writer.py"],
     [("reader cache", "sumpf/_internal/_persistence/_functions.py: read_file"), ("writer selection", "sumpf/_internal/_persistence/_functions.py: get_writer; _auto_writer.py")],
     [("readers", "cached readers per ending", "process global"), ("writers", "cached writers per format/ending", "process global")],
     ["save and load of the data classes"])

prop("C17", "Filters and bands survive saving, loading and repr",
     "Saving a filter or bands filter and loading it again, and evaluating its representation, gives a filter with the same channels: equal transfer functions including every transform flag, interpolation mode and coefficient, the same labels and the same values at every frequency (for text formats up to their number format).",
     ["inputs", "configurations", "histories"],
     "all term trees, channel counts, labels, support points and formats",
     "The tests round trip a few fixed filters per format.",
     ["sumpf/_internal/_persistence/_filter_writers.py", "sumpf/_internal/_persistence/_filter_readers.py", "sumpf/_data/_filters/_base/_filter.py", "sumpf/_data/_filters/_bands.py"],
     [("term serialisation", "sumpf/_data/_filters/_base/_terms: as_dict, __repr__; sumpf/_internal/_persistence/_filter_readers.py")],
     observe=["save, load and repr of Filter and Bands"])

prop("C18", "Equality and hash agree with the observable content",
     "Two data sets or filters of the same kind compare equal exactly if all of their observable content (shape, samples or terms, sampling rate or resolution, offset, labels) is equal; != is the negation of ==, equality is symmetric, comparing never raises an error, and equal objects have equal hashes. "
     "Labels are always as many strings as there are channels.",
     ["inputs"],
     "all pairs of signals, spectrums, spectrograms, filters and terms (also of different shapes and types) that differ in any single part of their content",
     "The tests compare copies and some altered instances; pairs that differ in exactly one part or in shape only are sampled rarely.",
     ["sumpf/_data/_sampled_data.py", "sumpf/_data/_signals/_signal.py", "sumpf/_data/_spectrums/_spectrum.py", "sumpf/_data/_spectrograms/_spectrogram.py", "sumpf/_data/_filters/_base", "sumpf/_internal/_functions.py"],
     [("__eq__ and __hash__", "sumpf/_data"), ("sanitize_labels", "sumpf/_internal/_functions.py")],
     observe=["==, != and hash of the data classes and terms"])

prop("C19", "Generated sequences have their defining structure for all parameters",
     "A maximum length sequence is a periodic binary sequence whose every full period has the balance and run structure of its register, a Rudin-Shapiro noise spectrum follows the Rudin-Shapiro recursion inside its band and is zero outside, fades are constant outside their intervals and rise and fall inside them as defined by the function, constants have their value everywhere, and random noise stays in the range of its distribution, has its mean value and variance and is reproducible with its seed. "
     "This holds for every length, seed, band and interval, and the data sets have the specified length, rate and label.",
     ["inputs", "configurations"],
     "all parameter combinations of MaximumLengthSequence, RudinShapiroNoiseSpectrum, Fade, the constants and the noise signals",
     "The tests compute a few fixed parameter sets.",
     ["sumpf/_data/_signals/_mls.py", "sumpf/_data/_spectrums/_rudinshapiro.py", "sumpf/_data/_signals/_fade.py", "sumpf/_data/_signals/_constant.py", "sumpf/_data/_signals/_noise.py"],
     [("generators", "sumpf/_data/_signals/_mls.py, _fade.py, _constant.py, _noise.py; sumpf/_data/_spectrums/_rudinshapiro.py")],
     observe=["channels of the generated data sets"])

prop("C20", "Levels, energy decay and statistics equal their defining sums",
     "Level, mean, standard deviation, variance, skewness and kurtosis of a signal, the level of a spectrum, the level over time and the energy decay curve with its reverberation times equal their defining sums over exactly the samples they are defined for: the samples of the channel, of all channels (for a single value), the integration interval placed symmetrically around the sample (partly covered samples count with their covered share, samples outside the signal are zeros with padding and are left out without), the tail of the channel, or the segment the decay is fitted to. "
     "This holds for every shape and parameter.",
     ["inputs", "configurations"],
     "all shapes and values, integration times (shorter, equal and longer than the signal, zero, fractions of samples) and padding flags; single value and channel-wise; all segments",
     "The tests compare a few fixed signals with reference values; the sampled integration times are nearly all shorter than one sample.",
     ["sumpf/_data/_signals/_signal.py", "sumpf/_data/_signals/_energy_decay.py", "sumpf/_data/_spectrums/_spectrum.py"],
     [("level, level_vs_time and statistics", "sumpf/_data/_signals/_signal.py"), ("energy decay", "sumpf/_data/_signals/_energy_decay.py"), ("level of spectrums", "sumpf/_data/_spectrums/_spectrum.py: level")],
     observe=["return values of the statistics methods"])

prop("C21", "Windows are composed and rated as defined for all lengths and plateaus",
     "A window has the samples of its window function with its length (symmetric) or without the last sample of the window function with one sample more (not symmetric); with a plateau, the two halves of the shorter window function surround samples with the value one. "
     "Scaling factor, flatness, overlap correlation and recommended overlap equal their defining sums over the overlapping repetitions of the window for every overlap, and bandwidth and scalloping loss follow from its spectrum.",
     ["inputs", "configurations"],
     "all window functions and their parameters, lengths, plateaus and overlaps (as integers, negative integers, floats and arrays)",
     "The tests create windows with a few random parameters per class; special cases (short windows, plateaus of nearly the full length, overlaps near the full length) are sampled rarely.",
     ["sumpf/_data/_signals/_windows.py", "sumpf/_data/_signals/_windows_scipy.py"],
     [("composition", "sumpf/_data/_signals/_windows.py: Window.__init__"), ("statistics", "sumpf/_data/_signals/_windows.py: scaling_factor, amplitude_flatness, power_flatness, overlap_correlation, recommended_overlap, bandwidth, scalloping_loss")],
     observe=["channels, symmetric(), plateau() and the return values of the statistics methods of the windows"])

prop("C22", "Waves and sweeps have the specified phase and harmonics are cut out exactly",
     "Sine and square waves have their phase at every sample. A sweep excites the start and the stop frequency at the samples of its interval and its phase is the integral of its frequency; the inverse sweep is its scaled time reversal, whose offset places the convolution of both at the time zero; the instantaneous, minimum and maximum frequencies agree with the samples. "
     "The impulse response of a harmonic is the segment between its arrival and that of the preceding harmonic, advanced by the fraction of a sample and brought to the requested length, and the given impulse response stays as it is.",
     ["inputs", "configurations"],
     "all frequencies, phases, intervals, sampling rates and lengths (also those that are computed with NumExpr); all offsets, harmonics and lengths of impulse responses",
     "The tests compare sweeps with a few fixed parameter sets; harmonics are only cut out of one system's impulse response.",
     ["sumpf/_data/_signals/_waves.py", "sumpf/_data/_signals/_sweep.py", "sumpf/_internal/_text.py"],
     [("waves", "sumpf/_data/_signals/_waves.py"), ("sweeps", "sumpf/_data/_signals/_sweep.py: LinearSweep, ExponentialSweep and their inverses"), ("harmonic impulse responses", "sumpf/_data/_signals/_sweep.py: harmonic_impulse_response")],
     observe=["channels, metadata, periods(), instantaneous_frequency(), minimum_frequency(), maximum_frequency() and harmonic_impulse_response()"])

prop("C23", "Predefined filters have their defining transfer functions",
     "Butterworth, Chebyshev (both types) and Bessel filters have, for every order, cutoff frequency, ripple and direction, the squared magnitude and the phase of their defining polynomials, so that they are stable, have their specified gain at the cutoff frequency and no more ripple than specified. "
     "Delay and Derivative filters have their defining transfer functions, and the weighting filters have the poles and zeros of their standards and the gain one at 1 kHz.",
     ["inputs", "configurations"],
     "all orders, cutoff frequencies, ripples and both directions; all delays; all frequencies including 0 Hz",
     "The tests compare a few orders and cutoff frequencies with SciPy; ripples and odd/even orders are sampled rarely.",
     ["sumpf/_data/_filters/_butterworth.py", "sumpf/_data/_filters/_bessel.py", "sumpf/_data/_filters/_chebyshev.py", "sumpf/_data/_filters/_weighting.py", "sumpf/_data/_filters/_delay.py", "sumpf/_data/_filters/_derivative.py"],
     [("infinite impulse response filters", "sumpf/_data/_filters/_base/_iir.py and its subclasses"), ("weighting filters", "sumpf/_data/_filters/_weighting.py"), ("delay, derivative", "sumpf/_data/_filters/_delay.py, _derivative.py")],
     observe=["transfer functions of the predefined filters"])

prop("C24", "A call depends on its arguments only, not on how they are passed",
     "Every constructor and method takes its parameters in the documented order and under their documented names, and a parameter that is left out has its documented default. "
     "So calls with the same effective arguments have the same result, no matter which of them are passed by position, by keyword or not at all; and all documented flags of the enumerations exist and differ.",
     ["inputs", "configurations"],
     "all subsets of left-out parameters and all splits into positional and keyword arguments for all (about 100) constructors and methods",
     "The tests pass most arguments explicitly; defaults and positions are only exercised incidentally.",
     ["sumpf/_data", "sumpf/_blocks", "sumpf/_internal/_enums.py"],
     [("signatures", "__init__ and the public methods of the classes in sumpf/_data and sumpf/_blocks"), ("flags", "sumpf/_internal/_enums.py")],
     observe=["results of the constructors and methods"])
prop("C25", "The outputs of connected blocks reflect the current network and its data",
     "In a network of connected sources, Merge and Concatenate blocks (and a recording Jack), every requested output is the one, that the current connections, modes and data define: "
     "changes anywhere upstream arrive, also through chains and diamonds, entries keep their order, and neither the order in which the network has been wired or changed nor earlier requests of outputs matter. "
     "A block without entries raises a RuntimeError.",
     ["inputs", "histories"],
     "all histories of connecting, disconnecting, adding, replacing, removing and changing sources and modes, interleaved with requests of outputs, on all networks of blocks",
     "The tests connect single blocks and change one source; bookkeeping of entries, caching and notifications matter for histories and chains of blocks.",
     ["sumpf/_blocks/_merge.py", "sumpf/_blocks/_concatenate.py", "sumpf/_blocks/_jack.py"],
     [("connectors", "the Input, MultiInput and Output decorators of the methods in sumpf/_blocks"), ("promise", "documentation/tutorials/concepts.rst")],
     observe=["outputs of all blocks"])

prop("C26", "Tables and dictionaries of other programs are loaded by their content",
     "Loading a CSV or numpy table or a text table, that has not been written by SuMPF, yields the samples, which it contains, at their times or frequencies, whatever the order of its rows, the notation of its numbers, "
     "its separators, comments and empty or missing cells are: signals start at the first time in the table, samples below the first frequency of a spectrum are zero and those at negative frequencies are cropped, "
     "missing or NaN values are not in the bands, labels come from the header or from the file's name. Dictionaries in JSON and npz files can leave out the meta data, which then have the constructors' defaults. Text, that is no table, is refused with a ValueError.",
     ["inputs"],
     "all tables (values, row orders, numbers of columns, separators, comments, notations of real and complex numbers) and all subsets of keys of a dictionary",
     "The tests load a few example files; the number formats, row orders and gaps of tables from other programs are unlimited.",
     ["sumpf/_internal/_persistence/_signal_readers.py", "sumpf/_internal/_persistence/_spectrum_readers.py", "sumpf/_internal/_persistence/_spectrogram_readers.py", "sumpf/_internal/_persistence/_filter_readers.py"],
     [("readers", "the Reader classes in sumpf/_internal/_persistence and the load methods of Signal, Spectrum, Spectrogram, Bands and Filter"), ("promise", "docstrings of the TableReader, CsvReader, NumpyReader and JsonReader classes")],
     observe=["the loaded data sets", "raised exceptions"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
