----------------------------- MODULE Persistence -----------------------------
(* Saving data sets to files and loading them. The only state is the file      *)
(* system: a path holds nothing, the bytes of a data set in a certain format   *)
(* or something else. There is deliberately no other state: which files have   *)
(* been saved, loaded or failed before must not matter.                        *)
(*                                                                             *)
(* A data set is a record                                                      *)
(*   kind    "signal", "spectrum", "spectrogram", "filter" or "bands"          *)
(*   shape   the shape of its channels array (the number of channels: filters) *)
(*   ch      one sequence of strings per channel: exact representations of the *)
(*           samples (the transfer function or support points for filters)     *)
(*   fix     (signals) the samples as fixed point numbers <<h, r>>: each       *)
(*           sample is h * 2^-12 + r * 2^-33 with 0 <= r < 2^21                *)
(*   eq      (loaded data sets) comparing it with the original gives TRUE      *)
(*   same    (loaded filters) the values are equal to those of the original    *)
(*   mode    (bands) the interpolation and extrapolation modes                 *)
(*   rates   exact representations of the sampling rate and the resolution     *)
(*   rat     the sampling rate or resolution as a fraction <<num, den>>        *)
(*   off, lab                                                                  *)
EXTENDS Integers, Sequences, FiniteSets

------------------------------------------------------------------------------
(* the formats                                                                 *)
Python == {"TEXT_JSON", "PYTHON_PICKLE"}
Tables == {"TEXT_TAB_I", "TEXT_TAB_J", "TEXT_PIPE_I", "TEXT_PIPE_J", "TEXT_GNUPLOT"}
Wav == {"WAV_UINT8", "WAV_INT16", "WAV_INT24", "WAV_INT32", "WAV_FLOAT32", "WAV_FLOAT64", "WAV_ULAW", "WAV_ALAW"}
Aiff == {"AIFF_UINT8", "AIFF_INT8", "AIFF_INT16", "AIFF_INT24", "AIFF_INT32", "AIFF_FLOAT32", "AIFF_FLOAT64", "AIFF_ULAW", "AIFF_ALAW"}
Flac == {"FLAC_INT8", "FLAC_INT16", "FLAC_INT24"}
Ogg == {"OGG_VORBIS"}
Audio == Wav \union Aiff \union Flac \union Ogg

Formats(kind) ==
    CASE kind = "signal" -> Python \union {"TEXT_CSV", "NUMPY_NPZ", "NUMPY_NPY"} \union Audio
      [] kind = "spectrum" -> Python \union {"TEXT_CSV", "NUMPY_NPZ", "NUMPY_NPY"}
      [] kind = "spectrogram" -> Python \union {"NUMPY_NPZ"}
      [] kind = "filter" -> Python \union {"TEXT_REPR"}
      [] kind = "bands" -> Python \union {"TEXT_CSV", "NUMPY_NPZ", "NUMPY_NPY", "TEXT_REPR"} \union Tables

\* formats, that can be written without third party libraries
BuiltIn == Python \union Tables \union {"TEXT_CSV", "NUMPY_NPZ", "NUMPY_NPY", "TEXT_REPR"}
           \union {"WAV_UINT8", "WAV_INT16", "WAV_INT32", "AIFF_INT8", "AIFF_INT16", "AIFF_INT32"}

\* the formats for a file name's ending in descending order of preference
Json == <<"TEXT_JSON">>
AiffList == <<"AIFF_FLOAT32", "AIFF_INT32", "AIFF_INT24", "AIFF_INT16", "AIFF_FLOAT64", "AIFF_INT8", "AIFF_UINT8", "AIFF_ULAW", "AIFF_ALAW">>
Preferred(kind, ending) ==
    CASE ending \in {".json", ".js"} -> Json
      [] ending = ".pickle" -> <<"PYTHON_PICKLE">>
      [] ending = ".npz" /\ kind # "filter" -> <<"NUMPY_NPZ">>
      [] ending = ".npy" /\ kind \notin {"filter", "spectrogram"} -> <<"NUMPY_NPY">>
      [] ending = ".csv" /\ kind \notin {"filter", "spectrogram"} -> <<"TEXT_CSV">>
      [] ending = ".wav" /\ kind = "signal" ->
            <<"WAV_FLOAT32", "WAV_INT32", "WAV_INT24", "WAV_INT16", "WAV_FLOAT64", "WAV_UINT8", "WAV_ULAW", "WAV_ALAW">>
      [] ending \in {".aiff", ".aifc", ".aif"} /\ kind = "signal" -> AiffList
      [] ending = ".flac" /\ kind = "signal" -> <<"FLAC_INT24", "FLAC_INT16", "FLAC_INT8">>
      [] ending \in {".ogg", ".oga"} /\ kind = "signal" -> <<"OGG_VORBIS">>
      [] ending = ".txt" /\ kind = "filter" -> <<"TEXT_REPR">>
      [] ending \in {".txt", ".dat", ".asc", ".tab"} /\ kind = "bands" -> <<"TEXT_TAB_I">>
      [] OTHER -> <<>>
KnownEndings(kind) == {e \in {".json", ".js", ".pickle", ".npz", ".npy", ".csv", ".wav", ".aiff", ".aifc", ".aif", ".flac", ".ogg", ".oga", ".txt",
                              ".dat", ".asc", ".tab"} : Preferred(kind, e) # <<>>}
\* the endings of files in the given format
Endings(kind, fmt) == {e \in KnownEndings(kind) : fmt \in {Preferred(kind, e)[k] : k \in DOMAIN Preferred(kind, e)}}

RECURSIVE FirstAvailable(_, _)
FirstAvailable(list, soundfile) ==
    IF list = <<>> THEN "none"
    ELSE IF soundfile \/ Head(list) \in BuiltIn THEN Head(list) ELSE FirstAvailable(Tail(list), soundfile)

\* the format, in which a data set is saved, or "none", if it cannot be saved
Resolve(kind, fmt, ending, soundfile) ==
    IF fmt = "AUTO" THEN FirstAvailable(Preferred(kind, ending), soundfile)
    ELSE IF soundfile \/ fmt \in BuiltIn THEN fmt ELSE "none"

------------------------------------------------------------------------------
(* what a format preserves                                                     *)
Abs(x) == IF x < 0 THEN -x ELSE x
Channels(d) == d.shape[1]
Length(d) == d.shape[Len(d.shape)]
Rows(fmt) == fmt \in {"TEXT_CSV", "NUMPY_NPY"}                    \* tables with a column for the time or the frequency
KeepsLabels(fmt) == fmt \in Python \union {"TEXT_CSV", "NUMPY_NPZ", "TEXT_REPR"}
KeepsModes(fmt) == fmt \in Python \union {"NUMPY_NPZ", "TEXT_REPR"}
Lossless(fmt) == fmt \notin Audio \/ fmt \in {"WAV_FLOAT64", "AIFF_FLOAT64"}

Bits(fmt) ==
    CASE fmt \in {"WAV_UINT8", "AIFF_UINT8", "AIFF_INT8", "FLAC_INT8"} -> 8
      [] fmt \in {"WAV_INT16", "AIFF_INT16", "FLAC_INT16"} -> 16
      [] fmt \in {"WAV_INT24", "AIFF_INT24", "FLAC_INT24"} -> 24
      [] fmt \in {"WAV_INT32", "AIFF_INT32"} -> 32
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Half == Pow2(21)                                                  \* 2^-12 in units of 2^-33

\* |a - b| <= t * 2^-33 with t < 2^29 for fixed point numbers (without large intermediate values)
Near(a, b, t) == /\ Abs(a[1] - b[1]) <= 500
                 /\ Abs((a[1] - b[1]) * Half + (a[2] - b[2])) <= t
\* the largest value of an integer format: 1 - 2^(1-bits)
Largest(bits) == IF bits >= 13 THEN <<4095, Half - Pow2(34 - bits)>> ELSE <<4096 - Pow2(13 - bits), 0>>
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Clip(x, bits) == IF Less(x, <<-4096, 0>>) THEN <<-4096, 0>> ELSE IF Less(Largest(bits), x) THEN Largest(bits) ELSE x
\* (samples on the boundary between two values can be rounded either way)
SampleKept(fmt, x, y) ==
    CASE fmt \in {"WAV_FLOAT32", "AIFF_FLOAT32"} -> Near(x, y, 512)               \* 2^-24
      [] fmt \in {"WAV_ULAW", "AIFF_ULAW", "WAV_ALAW", "AIFF_ALAW"} ->
            \* a logarithmic characteristic: one 128th plus one 25th of the value
            Near(Clip(x, 16), y, Pow2(26) + (Pow2(21) \div 25) * (IF Abs(x[1]) > 4096 THEN 4096 ELSE Abs(x[1])))
      [] fmt = "OGG_VORBIS" -> TRUE
      \* (libsndfile does not round to the nearest value in this format)
      [] fmt = "AIFF_UINT8" -> Near(Clip(x, 8), y, Pow2(26))
      [] OTHER -> Near(Clip(x, Bits(fmt)), y, Pow2(33 - Bits(fmt)))

SamplesKept(fmt, d, r) ==
    IF d.kind = "signal" /\ ~Lossless(fmt)
    THEN /\ Len(r.fix) = Len(d.fix)
         /\ \A c \in DOMAIN d.fix : /\ Len(r.fix[c]) = Len(d.fix[c])
                                    /\ \A k \in DOMAIN d.fix[c] : SampleKept(fmt, d.fix[c][k], r.fix[c][k])
    \* creating a term can simplify it
    ELSE r.ch = d.ch \/ (d.kind = "filter" /\ r.same)

\* a spectrogram without frequency bins has no place for the number of its samples in a JSON file
ShapeKept(fmt, d, r) ==
    IF d.kind = "spectrogram" /\ fmt = "TEXT_JSON" /\ d.shape[2] = 0
    THEN Len(r.shape) = 3 /\ r.shape[1] = d.shape[1] /\ r.shape[2] = 0
    ELSE r.shape = d.shape

\* the nearest integer (fractions have positive denominators)
Rounded(q, n) == 2 * Abs(q[1] - n * q[2]) <= q[2]
Integral(r) == r[2] = 1
RateKept(fmt, d, r) ==
    LET q == d.rat  p == r.rat IN
    CASE d.kind \in {"filter", "bands"} -> TRUE
      [] fmt \in Python \union {"NUMPY_NPZ"} -> r.rates = d.rates
      [] Rows(fmt) -> Length(d) < 2 \/ p = q
      [] fmt \in Flac -> /\ Integral(p)
                         /\ IF q[1] <= 65535 * q[2] THEN p[1] = 1 \/ Rounded(q, p[1])
                            ELSE p[1] = 655350 \/ (p[1] % 10 = 0 /\ Abs(q[1] - p[1] * q[2]) <= 5 * q[2])
      [] fmt \in Ogg -> Integral(p) /\ (IF q[1] <= 1000 * q[2] THEN p[1] = 1000
                                        ELSE IF q[1] >= 200000 * q[2] THEN p[1] = 200000 ELSE Rounded(q, p[1]))
      [] OTHER -> Integral(p) /\ (IF q[1] < q[2] THEN p[1] = 1 ELSE Rounded(q, p[1]))
OffsetKept(fmt, d, r) ==
    CASE d.kind \in {"filter", "bands", "spectrum"} -> TRUE
      [] fmt \in Python \union {"NUMPY_NPZ"} -> r.off = d.off
      [] Rows(fmt) -> Length(d) < 2 \/ r.off = d.off
      [] OTHER -> r.off = 0

\* r is what has to be loaded from a file, to which d has been saved; r.file is the prefix of its default labels
Restored(fmt, d, r) ==
    CASE d.kind \notin {"filter", "bands"} /\ r.kind # d.kind -> "kind"
      [] d.kind = "filter" /\ r.kind \notin {"filter", "bands"} -> "kind"
      [] d.kind = "bands" /\ r.kind \notin {"filter", "bands"} -> "kind"
      [] ~ ShapeKept(fmt, d, r) -> "shape"
      [] ~ SamplesKept(fmt, d, r) -> "samples"
      [] ~ RateKept(fmt, d, r) -> "sampling rate or resolution"
      [] ~ OffsetKept(fmt, d, r) -> "offset"
      [] Len(r.lab) # Channels(d) -> "number of labels"
      [] KeepsLabels(fmt) /\ r.lab # d.lab -> "labels"
      [] d.kind = "bands" /\ KeepsModes(fmt) /\ r.mode # d.mode -> "modes"
      \* the loaded object compares equal, if the format stores everything
      [] KeepsModes(fmt) /\ ~ d.nan /\ ~ r.eq /\ r.shape = d.shape /\ r.ch = d.ch -> "equality"
      [] d.kind \in {"filter", "bands"} /\ KeepsModes(fmt) /\ ~ d.nan /\ ~ r.same -> "values"
      [] OTHER -> "ok"
===============================================================================
