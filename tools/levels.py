NOT_APPLICABLE = {}
LEVEL = {
 "C01": ("TLA+ model of the block's histories, TLC enumeration replayed on the code, trace validation with TLC",
         "Exhaustive for all histories up to 4 (thorough 5) operations over 3 data sets and 4 data types; sampled beyond (random pools and histories). Trusts TLC, the recording harness and the connectors package."),
 "C02": ("TLA+ model of the block's histories, TLC enumeration replayed on the code, trace validation with TLC",
         "Exhaustive for all histories up to 4 (thorough 5) operations over 4 overlapping data sets; sampled beyond (random pools, histories and sample types). Trusts TLC, the recording harness and the connectors package."),
 "C03": ("TLA+ model of playback and recording, TLC enumeration replayed on the code with a controllable JACK server, trace validation with TLC",
         "Exhaustive for all schedules of 4 (thorough: up to 6) operations with block sizes 1-4 and signal lengths 0-5; sampled beyond (lengths up to 60, changing block sizes, xruns, shutdown, reconfiguration). Trusts TLC, the recording harness, the connectors package and the stand-in for the jack module (calibrated against jackd with the dummy driver); callbacks are atomic."),
 "C04": ("TLA+ model of ports and connections, TLC enumeration replayed on the code with a controllable JACK server, trace validation with TLC",
         "Exhaustive for all histories of 3 (thorough 4) operations on 2-3 ports; sampled beyond. Trusts TLC, the recording harness, the connectors package and the stand-in for the jack module (calibrated against jackd with the dummy driver); callbacks are atomic."),
 "C05": ("TLA+ model of the data sets and operations, TLC-enumerated cases replayed on the code, validation of the recorded operations with TLC",
         "Exhaustive over channel counts, lengths and relative offsets of two small signals and all operators; sampled beyond (numbers, arrays, dtypes, larger signals, sequences of operations). Exact arithmetic on integers/rationals (floating point rounding is not part of the model). Trusts TLC, the recording harness and numpy."),
 "C06": ("TLA+ model of the data sets and operations, TLC-enumerated cases replayed on the code, validation of the recorded operations with TLC",
         "Exhaustive over channel counts, lengths and offsets of two small spectrums or spectrograms and all operators; sampled beyond (numbers, arrays, other data types, larger data sets, sequences). Exact arithmetic on integers/rationals (floating point rounding is not part of the model). Trusts TLC, the recording harness and numpy."),
 "C08": ("TLA+ model of the data sets and operations, TLC-enumerated cases replayed on the code, validation of the recorded operations with TLC",
         "Exhaustive over all one- and two-element keys in a bounded range for small shapes; sampled beyond (random shapes and keys). The offset for slices with negative step is only specified where the existing tests pin it. Exact arithmetic on integers/rationals (floating point rounding is not part of the model). Trusts TLC, the recording harness and numpy."),
 "C09": ("TLA+ model of the data sets and operations, TLC-enumerated cases replayed on the code, validation of the recorded operations with TLC",
         "Exhaustive over shifts, paddings and modes for small shapes; sampled beyond. Known finding: cyclic shifts by more than the length. Exact arithmetic on integers/rationals (floating point rounding is not part of the model). Trusts TLC, the recording harness and numpy."),
 "C10": ("TLA+ model of the data sets and operations, TLC-enumerated cases replayed on the code, validation of the recorded operations with TLC",
         "Exhaustive over channel counts, lengths, offsets and modes of two small signals; sampled beyond (lengths to 17, arrays, numbers, sequences). Exact arithmetic on integers/rationals (floating point rounding is not part of the model). Trusts TLC, the recording harness and numpy."),
 "C11": ("TLA+ model of the transforms in the time domain (exact rationals), TLC-enumerated cases replayed on the code, trace validation with TLC",
         "Exhaustive over channel counts, lengths up to 5 (thorough 7), offsets, windows up to 4 (thorough 6) samples, steps and padding; sampled beyond (lengths to 20, windows to 11, all forms of windows and overlaps). The recorded spectrums are decoded with a plain O(N^2) inverse transform in the harness. Trusts TLC, the recording harness, numpy's complex arithmetic."),
 "C12": ("TLA+ model of the values of terms (exact Gaussian rationals), TLC-enumerated terms and channel sequences replayed on the code, trace validation with TLC",
         "Exhaustive for terms of depth two over a few atoms, all constructors with and without transform and all operators (thorough: more atoms); sampled beyond (depth 4, programs of filter operations). Values are compared at four frequencies as exact fractions; irrational values and (with transforms) mixed values at 0Hz are unspecified. Trusts TLC, the recording harness and numpy."),
 "C14": ("TLA+ model of interpolation and extrapolation (exact rationals and powers of two), TLC-enumerated sets of support points replayed on the code, trace validation with TLC",
         "Exhaustive for all orders of up to 3 (thorough 4) support points and all 64 combinations of modes at ten frequencies; sampled beyond (up to 7 points, 3 channels, derived filters, all forms of arguments). Values of logarithmic modes are only specified at powers of two. Trusts TLC, the recording harness and numpy."),
 "C13": ("TLA+ model of the values of terms (exact Gaussian rationals), TLC-enumerated terms and channel sequences replayed on the code, trace validation with TLC",
         "Exhaustive for all sequences of up to 3 (thorough 4) channels over 8 kinds of transfer functions; sampled beyond (random terms, all ways of evaluating and applying filters). Signals are filtered with lengths 2 and 4 (exact transforms). Trusts TLC, the recording harness and numpy."),
 "C15": ("TLA+ model of files and formats, TLC-enumerated formats, endings and histories replayed on the code, trace validation with TLC",
         "Exhaustive over all pairs of a format and a file name's ending; the data sets are sampled (empty ones, special values and labels, several sample types, lengths around the writers' chunk size; the quick check uses about 10 per format). Numbers are compared exactly where the format stores them exactly. Known findings: limitations of libsndfile. Trusts TLC, the recording harness, numpy, soundfile."),
 "C16": ("TLA+ model of files and formats, TLC-enumerated formats, endings and histories replayed on the code, trace validation with TLC",
         "All histories of 3 (thorough 4) operations on two files with four to six endings and formats per kind of data set (a random part of them in the quick check); sampled beyond (up to 20 operations on up to 5 files of mixed kinds, with and without the soundfile library). Each load is compared with one in a fresh process. Trusts TLC, the recording harness and fork."),
 "C17": ("TLA+ model of files and formats, TLC-enumerated formats, endings and histories replayed on the code, trace validation with TLC",
         "Exhaustive over all pairs of a format and a file name's ending and over all classes of terms with all combinations of operands and transforms; sampled beyond (random terms, support points and labels). Text formats do not preserve signs of zeros. Trusts TLC, the recording harness and numpy."),
 "C07": ("TLA+ model of a heap of immutable values, TLC-enumerated programs replayed on the code, trace validation with TLC",
         "All programs of a bounded length over the kinds of operations (a random part of them in the quick check); sampled beyond (random programs with all public operations, shared arrays and repeated calls). Arrays, that the caller modifies after passing them, are outside the statement. Results of repeated calls are compared up to rounding. Trusts TLC, the recording harness and numpy."),
 "C18": ("TLA+ model of the content of data sets and terms, TLC-enumerated pairs replayed on the code, trace validation with TLC",
         "Exhaustive for all single changes of small data sets and of terms of depth one (thorough two); sampled beyond (families of random data sets, filters and bands with copies in other memory layouts and data types). Data sets with NaN samples are only checked for symmetry. Trusts TLC, the recording harness and numpy."),
 "C20": ("TLA+ model of levels, statistics and energy decay (exact rationals), TLC-enumerated cases replayed on the code, trace validation with TLC",
         "Exhaustive for all integration intervals in steps of a quarter sample on signals up to 6 (thorough 9) samples (all weights of all samples); sampled beyond (statistics of small signals, levels of signals up to 300 samples, decays up to 12 samples, spectrums). Results are compared with six decimal digits. Trusts TLC, the recording harness and numpy."),
 "C19": ("TLA+ model of shift registers, Rudin-Shapiro sequences, fades and the ranges and moments of random noise, TLC-enumerated cases replayed on the code, trace validation with TLC",
         "Exhaustive for all fades up to length 5 (thorough 7), all noise bands up to 9 (12) bins in steps of a quarter bin and all feedback selections of shift registers up to 5 (6) bits; sampled beyond (sequences of registers up to 8 (11) bits, lengths up to 600, all noise classes, the first two moments of 65536 samples within six standard deviations). The order of a sequence is checked by its states, period and (short registers) linearity. Trusts TLC, the recording harness and numpy."),
 "C21": ("TLA+ model of the composition and the statistics of windows (exact rationals), TLC-enumerated cases replayed on the code, trace validation with TLC",
         "Exhaustive for all window functions, plateaus and symmetries up to length 8 (thorough 12), with all overlaps for the rectangular and the Bartlett window; sampled beyond (lengths to 60, parameters). Irrational window functions are computed from their definitions in the harness. Trusts TLC, the recording harness and numpy."),
 "C22": ("TLA+ model of the phases of waves and sweeps and of harmonic segments, TLC-enumerated cases replayed on the code, trace validation with TLC",
         "Exhaustive for linear and exponential sweeps with small integer phases up to length 5 (thorough 8) and all segments of impulse responses up to 7 (10) samples for five harmonics; sampled beyond (arbitrary frequencies, lengths up to 20000, harmonics up to 111). The sine function and the interpolation kernel are given as tables; segments outside of the impulse response are unspecified. Trusts TLC, the recording harness and numpy."),
 "C23": ("TLA+ model of the predefined filters (exact rational squared magnitudes), TLC-enumerated cases replayed on the code, trace validation with TLC",
         "Exhaustive for orders up to 6 (thorough 7; Bessel 4), four ripples and both directions at eight ratios of frequency and cutoff frequency with exact rational squared magnitudes; sampled beyond (orders to 12, arbitrary ripples and cutoff frequencies). Phases are computed from the poles and zeros of the definition in the harness. Trusts TLC, the recording harness and numpy."),
 "C24": ("TLA+ model of binding arguments to parameters, all ways of passing arguments enumerated with TLC and replayed on the code, trace validation with TLC",
         "Exhaustive for all subsets of left-out parameters and all splits into positional and keyword arguments of the modelled callables, with one alternative value per parameter. Jack's parameters are covered by C03 and C04. Random seeds are always given. Trusts TLC, the recording harness and numpy."),
    "C25": ("TLA+ model of networks of connected blocks, all bounded histories of three wirings enumerated with TLC and replayed on the code, random networks and histories validated with TLC",
            "Exhaustive for all histories of three changes starting from a diamond, a chain and unconnected blocks (the quick check replays a random part of them); random beyond: up to three sources, one of which can be a recording Jack, four blocks and twenty changes. Trusts the connectors package (a block, that feeds another one, must be able to compute its output; outputs are requested before disconnecting), TLC, the recording harness and numpy."),
    "C26": ("TLA+ specification of tables and dictionaries, that other programs have written, all small documents enumerated with TLC, written and loaded with the code, random documents and the loaded data sets validated with TLC",
            "Exhaustive for tables with two lines (thorough: three) and a handful of values, unordered and incomplete ones included, and for the subsets of the keys of dictionaries; random beyond: up to twelve lines and four channels, all notations of numbers, separators, comments, line ends and quotings. Trusts the harness' rendering of numbers, TLC, Python's csv and json packages and numpy."),
}
