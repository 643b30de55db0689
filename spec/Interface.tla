------------------------------ MODULE Interface ------------------------------
(* The interface of the package: the parameters of all callables, their order *)
(* and their defaults. A call is a sequence of positional arguments and a     *)
(* selection of keyword arguments. Its effective arguments are the result of  *)
(* binding them to the parameters; calls with the same effective arguments    *)
(* have the same result, no matter how the arguments have been passed.        *)
(* Arguments are given as expressions, which only the harness evaluates.      *)
EXTENDS Integers, Sequences, FiniteSets

Required == "-"
\* <<name, default, another value>>
Sampling == <<"sampling_rate", "48000.0", "44100.0">>
Length16 == <<"length", "2**16", "12">>
Seed == <<"seed", Required, "17">>
Noise(p) == p \o <<Seed, Sampling, Length16>>
Window(p) == p \o << <<"plateau", "0", "3">>, Sampling, <<"length", "2**13", "12">>, <<"symmetric", "True", "False">> >>
Periodic == << <<"frequency", "1000.0", "2718.0">>, <<"phase", "0.0", "0.25">>, Sampling, Length16>>
Sweep == << <<"start_frequency", "20.0", "110.0">>, <<"stop_frequency", "20000.0", "7000.0">>, <<"phase", "0.0", "0.25">>,
            <<"interval", "(0, 1.0)", "(0.2, 0.9)">>, Sampling, Length16>>
Cutoff == <<"cutoff_frequency", "1000.0", "320.0">>
Order == <<"order", "1", "3">>
HighPass == <<"highpass", "False", "True">>
Transform == <<"transform", "False", "True">>
Single == << <<"single_value", "False", "True">> >>
StftWindow == <<"window", "4096", "sumpf.BartlettWindow(length=4096, symmetric=False)">>
Overlap == <<"overlap", "0.5", "0.75">>
Pad == <<"pad", "True", "False">>
Fill == << <<"length", Required, "130">>, <<"value", "0.0", "2.5">> >>
Mode(default, other) == <<"mode", default, other>>

Table == [
    \* data sets
    Signal |-> << <<"channels", "numpy.empty(shape=(1, 0))", "numpy.array([[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]])">>, Sampling, <<"offset", "0", "-7">>, <<"labels", "()", "('one', 'two')">> >>,
    Spectrum |-> << <<"channels", "numpy.empty(shape=(1, 0))", "numpy.array([[1.0, 2.0j, 3.0], [4.0, 5.0, 6.0]])">>, <<"resolution", "1.0", "0.5">>, <<"labels", "()", "('one', 'two')">> >>,
    Spectrogram |-> << <<"channels", "numpy.empty(shape=(1, 1, 0))", "numpy.array([[[1.0, 2.0j], [3.0, 4.0]]])">>, <<"resolution", "1.0", "0.5">>, Sampling, <<"offset", "0", "-7">>, <<"labels", "()", "('one',)">> >>,
    Filter |-> << <<"transfer_functions", "(sumpf.Filter.Constant(1.0),)", "(sumpf.Filter.Polynomial((1.0, 2.0)), sumpf.Filter.Constant(3.0))">>, <<"labels", "('',)", "('one', 'two')">> >>,
    Bands |-> << <<"bands", "({},)", "({10.0: 1.0, 40.0: 2.0, 160.0: 0.5},)">>, <<"interpolations", "sumpf.Bands.interpolations.LOGARITHMIC", "sumpf.Bands.interpolations.LINEAR">>,
                <<"extrapolations", "sumpf.Bands.interpolations.STAIRS_LIN", "sumpf.Bands.interpolations.ONE">>, <<"labels", "('Bands',)", "('one',)">> >>,
    ConstantSignal |-> << <<"value", "0.0", "2.5">>, Sampling, Length16>>,
    ConstantSpectrum |-> << <<"value", "0.0", "2.5">>, <<"resolution", "1.0", "0.5">>, <<"length", "1", "12">> >>,
    ConstantSpectrogram |-> << <<"value", "0.0", "2.5">>, <<"resolution", "48000.0 / 4096", "0.5">>, <<"sampling_rate", "2 * 48000.0 / 8192", "7.0">>,
                              <<"number_of_frequencies", "2049", "4">>, <<"length", "32", "12">> >>,
    \* generators
    SineWave |-> Periodic, SquareWave |-> Periodic,
    LinearSweep |-> Sweep, ExponentialSweep |-> Sweep, InverseLinearSweep |-> Sweep, InverseExponentialSweep |-> Sweep,
    MaximumLengthSequence |-> << <<"bits", "None", "5">>, Seed, Sampling, <<"length", "None", "40">> >>,
    RudinShapiroNoiseSpectrum |-> << <<"start_frequency", "0.0", "3.0">>, <<"stop_frequency", "None", "7.0">>, <<"resolution", "1.0", "0.5">>, <<"length", "1", "33">> >>,
    Fade |-> << <<"function", "numpy.blackman", "numpy.hanning">>, <<"rise_interval", "None", "(2, 5)">>, <<"fall_interval", "None", "(7, 11)">>, Sampling, Length16>>,
    UniformNoise |-> Noise(<< <<"lower_boundary", "-1.0", "-2.5">>, <<"upper_boundary", "1.0", "4.0">> >>),
    GaussianNoise |-> Noise(<< <<"mean", "0.0", "2.5">>, <<"standard_deviation", "1.0", "0.25">> >>),
    PoissonNoise |-> Noise(<< <<"lambda_", "0.0", "3.5">> >>),
    LaplaceNoise |-> Noise(<< <<"mean", "0.0", "2.5">>, <<"decay", "1.0", "0.25">> >>),
    VonMisesNoise |-> Noise(<< <<"mode", "0.0", "0.5">>, <<"dispersion", "1.0", "2.5">> >>),
    TriangularNoise |-> Noise(<< <<"lower_boundary", "-1.0", "-2.5">>, <<"upper_boundary", "1.0", "4.0">>, <<"mode", "None", "0.5">> >>),
    GeometricNoise |-> Noise(<< <<"p", "0.5", "0.125">> >>),
    HypergeometricNoise |-> Noise(<< <<"acceptable", "1", "7">>, <<"non_acceptable", "1", "5">>, <<"draws", "1", "2">> >>),
    BinomialNoise |-> Noise(<< <<"p", "0.5", "0.125">>, <<"draws", "1", "9">> >>),
    BetaNoise |-> Noise(<< <<"alpha", "1.0", "2.5">>, <<"beta", "1.0", "0.5">> >>),
    GammaNoise |-> Noise(<< <<"shape", "1.0", "2.5">>, <<"scale", "1.0", "0.5">> >>),
    LogarithmicNoise |-> Noise(<< <<"p", "0.5", "0.125">> >>),
    LogisticNoise |-> Noise(<< <<"mean", "0.0", "2.5">>, <<"scale", "1.0", "0.25">> >>),
    LomaxNoise |-> Noise(<< <<"shape", "1.0", "2.5">> >>),
    WaldNoise |-> Noise(<< <<"mean", "1.0", "2.5">>, <<"scale", "1.0", "0.25">> >>),
    ChiSquareNoise |-> Noise(<< <<"degrees_of_freedom", "1.0", "2.5">> >>),
    \* windows
    RectangularWindow |-> Window(<< >>), BartlettWindow |-> Window(<< >>), BartlettHannWindow |-> Window(<< >>), HannWindow |-> Window(<< >>), HammingWindow |-> Window(<< >>),
    BlackmanWindow |-> Window(<< >>), BlackmanHarrisWindow |-> Window(<< >>), BohmanWindow |-> Window(<< >>), ParzenWindow |-> Window(<< >>),
    KaiserWindow |-> Window(<< <<"beta", "9.4248", "3.0">> >>),
    GaussianWindow |-> Window(<< <<"standard_deviation", "1.0", "0.25">> >>),
    DolphChebyshevWindow |-> Window(<< <<"attenuation", "150.0", "60.0">> >>),
    ExponentialWindow |-> Window(<< <<"decay", "100.0", "30.0">> >>),
    FlatTopWindow |-> Window(<< <<"function", "sumpf.FlatTopWindow.functions.DEFAULT", "sumpf.FlatTopWindow.functions.HFT95">> >>),
    NuttallWindow |-> Window(<< <<"function", "sumpf.NuttallWindow.functions.NUTTALL4C", "sumpf.NuttallWindow.functions.NUTTALL3">> >>),
    SlepianWindow |-> << <<"beta", "9.4248", "3.0">>, <<"plateau", "0", "3">>, Sampling, <<"length", "2**13", "12">>, <<"symmetric", "True", "False">> >>,
    \* filters
    ButterworthFilter |-> <<Cutoff, Order, HighPass>>, BesselFilter |-> <<Cutoff, Order, HighPass>>,
    Chebyshev1Filter |-> <<Cutoff, <<"ripple", "3.0", "0.7">>, Order, HighPass>>, Chebyshev2Filter |-> <<Cutoff, <<"ripple", "60.0", "20.0">>, Order, HighPass>>,
    DelayFilter |-> << <<"delay", Required, "0.0123">> >>,
    Absolute |-> << <<"value", Required, "sumpf.Filter.Polynomial((2.0, 1.0))">>, Transform>>,
    Negative |-> << <<"value", Required, "sumpf.Filter.Polynomial((2.0, 1.0))">>, Transform>>,
    Sum |-> << <<"summands", Required, "(sumpf.Filter.Polynomial((2.0, 1.0)), sumpf.Filter.Exp(-0.1), sumpf.Filter.Exp(-0.2))">>, Transform>>,
    Product |-> << <<"factors", Required, "(sumpf.Filter.Polynomial((2.0, 1.0)), sumpf.Filter.Exp(-0.1), sumpf.Filter.Exp(-0.2))">>, Transform>>,
    Difference |-> << <<"minuend", Required, "sumpf.Filter.Polynomial((2.0, 1.0))">>, <<"subtrahend", Required, "sumpf.Filter.Exp(-0.1)">>, Transform>>,
    Quotient |-> << <<"numerator", Required, "sumpf.Filter.Polynomial((2.0, 1.0))">>, <<"denominator", Required, "sumpf.Filter.Exp(-0.1)">>, Transform>>,
    Polynomial |-> << <<"coefficients", Required, "(2.0, 1.0)">>, Transform>>,
    Exp |-> << <<"coefficient", Required, "-0.1">>, Transform>>,
    spectrum |-> << <<"resolution", "48000.0 / 4096", "0.5">>, <<"length", "2049", "12">> >>,
    to_db |-> << <<"reference", "1.0", "0.25">>, <<"factor", "20.0", "10.0">> >>, from_db |-> << <<"reference", "1.0", "0.25">>, <<"factor", "20.0", "10.0">> >>,
    \* blocks
    Concatenate |-> << <<"data", "()", "(SIGNAL, SHORT)">> >>,
    Merge |-> << <<"data", "()", "(SIGNAL, SHORT, SIGNAL)">>, Mode("sumpf.Merge.modes.FIRST_DATASET_FIRST", "sumpf.Merge.modes.FIRST_CHANNELS_FIRST")>>,
    \* methods
    convolve |-> << <<"other", Required, "SHORT">>, Mode("sumpf.Signal.convolution_modes.SPECTRUM_PADDED", "sumpf.Signal.convolution_modes.SAME")>>,
    correlate |-> << <<"other", Required, "SHORT">>, Mode("sumpf.Signal.convolution_modes.SPECTRUM_PADDED", "sumpf.Signal.convolution_modes.SAME")>>,
    fourier_transform |-> << <<"window", "None", "64">>, Overlap, Pad>>,
    short_time_fourier_transform |-> <<StftWindow, Overlap, Pad>>,
    inverse_short_time_fourier_transform |-> <<StftWindow, Overlap, Pad>>,
    level_vs_time |-> << <<"integration_time", "1.0", "0.75">>, <<"pad", "False", "True">> >>,
    signal_level |-> Single, mean |-> Single, standard_deviation |-> Single, variance |-> Single, skewness |-> Single, kurtosis |-> Single, spectrum_level |-> Single,
    pad_signal |-> Fill, pad_spectrum |-> Fill, pad_spectrogram |-> Fill,
    shift_signal |-> << <<"shift", Required, "5">>, Mode("sumpf.Signal.shift_modes.OFFSET", "sumpf.Signal.shift_modes.PAD")>>,
    shift_spectrogram |-> << <<"shift", Required, "5">>, Mode("sumpf.Spectrogram.shift_modes.OFFSET", "sumpf.Spectrogram.shift_modes.PAD")>>,
    bandwidth |-> << <<"oversampling", "8", "3">> >>,
    scaling_factor |-> << <<"overlap", Required, "0.75">> >>, overlap_correlation |-> << <<"overlap", Required, "0.75">> >>,
    amplitude_flatness |-> << <<"overlap", Required, "0.75">> >>, power_flatness |-> << <<"overlap", Required, "0.75">> >>,
    EnergyDecayCurve |-> << <<"impulse_response", Required, "SIGNAL">> >>,
    decay_model |-> << <<"start", Required, "0.25">>, <<"stop", Required, "0.75">> >>, reverberation_time |-> << <<"start", Required, "0.25">>, <<"stop", Required, "0.75">> >>,
    harmonic_impulse_response |-> << <<"impulse_response", Required, "RESPONSE">>, <<"harmonic", Required, "2">>, <<"length", "None", "12">> >>,
    instantaneous_frequency |-> << <<"t", Required, "numpy.linspace(0.0, 0.1, 7)">> >>,
    Constant |-> << <<"value", Required, "2.5">> >>,
    \* (the file format is guessed from the file extension)
    save_signal |-> << <<"path", Required, "PATH('x.csv')">>, <<"file_format", "sumpf.Signal.file_formats.AUTO", "sumpf.Signal.file_formats.TEXT_JSON">> >>,
    save_spectrum |-> << <<"path", Required, "PATH('x.csv')">>, <<"file_format", "sumpf.Spectrum.file_formats.AUTO", "sumpf.Spectrum.file_formats.TEXT_JSON">> >>,
    save_spectrogram |-> << <<"path", Required, "PATH('x.json')">>, <<"file_format", "sumpf.Spectrogram.file_formats.AUTO", "sumpf.Spectrogram.file_formats.TEXT_JSON">> >>,
    save_filter |-> << <<"path", Required, "PATH('x.json')">>, <<"file_format", "sumpf.Filter.file_formats.AUTO", "sumpf.Filter.file_formats.TEXT_REPR">> >>,
    save_bands |-> << <<"path", Required, "PATH('x.csv')">>, <<"file_format", "sumpf.Bands.file_formats.AUTO", "sumpf.Bands.file_formats.TEXT_JSON">> >>
]
Callables == DOMAIN Table

Names(c) == {Table[c][k][1] : k \in DOMAIN Table[c]}
Position(c, name) == CHOOSE k \in DOMAIN Table[c] : Table[c][k][1] = name
\* A call: [callable, args (a sequence of expressions), kwargs (a sequence of <<name, expression>> pairs)]
Given(call) == {call.kwargs[k][1] : k \in DOMAIN call.kwargs}
IsValid(call) ==
    /\ Len(call.args) <= Len(Table[call.callable])
    /\ \A k \in DOMAIN call.kwargs : call.kwargs[k][1] \in Names(call.callable) /\ Position(call.callable, call.kwargs[k][1]) > Len(call.args)
    /\ Cardinality(Given(call)) = Len(call.kwargs)
    /\ \A k \in DOMAIN Table[call.callable] :
          Table[call.callable][k][2] = Required => k <= Len(call.args) \/ Table[call.callable][k][1] \in Given(call)
\* binds the arguments to the parameters
Effective(call) ==
    [k \in DOMAIN Table[call.callable] |->
        LET p == Table[call.callable][k] IN
        CASE k <= Len(call.args) -> call.args[k]
          [] k > Len(call.args) /\ p[1] \in Given(call) -> call.kwargs[CHOOSE j \in DOMAIN call.kwargs : call.kwargs[j][1] = p[1]][2]
          [] OTHER -> p[2]]
\* the same call with all arguments as keywords
Explicit(call) ==
    LET e == Effective(call) IN
    [callable |-> call.callable, args |-> << >>, kwargs |-> [k \in DOMAIN e |-> <<Table[call.callable][k][1], e[k]>>]]

(* the flags of the enumerations *)
Flags == [
    convolution_modes |-> {"FULL", "SAME", "VALID", "SPECTRUM", "SPECTRUM_PADDED"},
    shift_modes |-> {"OFFSET", "CROP", "PAD", "CYCLE"},
    spectrogram_shift_modes |-> {"OFFSET", "CROP", "PAD", "CYCLE"},
    merge_modes |-> {"FIRST_DATASET_FIRST", "FIRST_CHANNELS_FIRST"},
    interpolations |-> {"ZERO", "ONE", "LINEAR", "LOGARITHMIC", "LOG_X", "LOG_Y", "STAIRS_LIN", "STAIRS_LOG"},
    flat_top |-> {"DEFAULT", "SFT3F", "SFT4F", "SFT5F", "SFT3M", "SFT4M", "SFT5M", "FTNI", "FTHP", "FTSRS", "HFT70", "HFT90D", "HFT95", "HFT116D", "HFT144D",
                  "HFT169D", "HFT196D", "HFT223D", "HFT248D"},
    nuttall |-> {"NUTTALL3", "NUTTALL3A", "NUTTALL3B", "NUTTALL4", "NUTTALL4A", "NUTTALL4B", "NUTTALL4C"},
    signal_formats |-> {"AUTO", "TEXT_CSV", "TEXT_JSON", "NUMPY_NPZ", "NUMPY_NPY", "PYTHON_PICKLE", "WAV_UINT8", "WAV_INT16", "WAV_INT24", "WAV_INT32", "WAV_FLOAT32",
                        "WAV_FLOAT64", "AIFF_INT8", "AIFF_INT16", "AIFF_INT24", "AIFF_INT32", "AIFF_FLOAT32", "AIFF_FLOAT64", "FLAC_INT8", "FLAC_INT16", "FLAC_INT24", "OGG_VORBIS"},
    spectrum_formats |-> {"AUTO", "TEXT_CSV", "TEXT_JSON", "NUMPY_NPZ", "NUMPY_NPY", "PYTHON_PICKLE"},
    spectrogram_formats |-> {"AUTO", "TEXT_JSON", "NUMPY_NPZ", "PYTHON_PICKLE"},
    filter_formats |-> {"AUTO", "TEXT_JSON", "TEXT_REPR", "PYTHON_PICKLE"},
    bands_formats |-> {"AUTO", "TEXT_TAB_I", "TEXT_TAB_J", "TEXT_PIPE_I", "TEXT_PIPE_J", "TEXT_GNUPLOT", "TEXT_CSV", "TEXT_JSON", "TEXT_REPR", "NUMPY_NPY", "NUMPY_NPZ",
                       "PYTHON_PICKLE"}
]
=============================================================================
