-------------------------------- MODULE Tables --------------------------------
(* Tables and dictionaries, that have been written by other programs, and the *)
(* data sets, that SuMPF loads from them.                                     *)
(*                                                                            *)
(* A document is a record                                                     *)
(*   kind    "signal", "spectrum" (a table, whose first column is the time or *)
(*           the frequency), "bands" (a table of a text file), "csvbands" or  *)
(*           "dict" (a JSON object or an npz archive)                         *)
(*   format  the ending of the file's name                                    *)
(*   file    the name of the file                                             *)
(*   unit    <<p, q>>: the first column of signals and spectrums is a         *)
(*           multiple of p/q                                                  *)
(*   rows    the rows [t, v]: t is an integer multiple of the unit, or in     *)
(*           bands the frequency as a string ("nan", if there is none); v are *)
(*           the values <<real, imaginary>> of the channels as strings        *)
(*   header  <<>> or <<the labels in the first row of the table>>             *)
(*   keys    the keys, that are given in a dictionary                         *)
(*   type    the data set of a dictionary                                     *)
(*   meta    the meta data [sr, res, off, lab] of a dictionary (sr and res    *)
(*           are fractions)                                                   *)
(*   text    FALSE, if a text table has got a line, that does not start with  *)
(*           a number                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Zero == <<"0.0", "0.0">>
Missing == <<"nan", "0.0">>
NoFrequency == "nan"

RangeOf(s) == {s[i] : i \in DOMAIN s}
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxSet(S) == CHOOSE x \in S : \A y \in S : x >= y
Abs(x) == IF x < 0 THEN -x ELSE x

NumberOfChannels(doc) == MaxSet({Len(doc.rows[r].v) : r \in DOMAIN doc.rows} \union {0})

Times(doc) == {doc.rows[r].t : r \in DOMAIN doc.rows}
RowAt(doc, t) == doc.rows[CHOOSE r \in DOMAIN doc.rows : doc.rows[r].t = t]

\* the rows are equidistant and all of them have the same number of values
IsRegular(doc) ==
    /\ doc.rows # <<>> /\ Cardinality(Times(doc)) = Len(doc.rows)
    /\ MaxSet(Times(doc)) - MinSet(Times(doc)) + 1 = Len(doc.rows)
    /\ \A r \in DOMAIN doc.rows : Len(doc.rows[r].v) = Len(doc.rows[1].v) /\ Len(doc.rows[r].v) > 0

FileLabels(doc, n) == [i \in 1 .. n |-> doc.file \o " " \o ToString(i)]
HeaderLabels(doc, n) == [i \in 1 .. n |-> IF i <= Len(doc.header[1]) THEN doc.header[1][i] ELSE ""]
NoLabels(n) == [i \in 1 .. n |-> ""]
LabelsOf(doc) ==
    LET n == NumberOfChannels(doc) IN
    CASE doc.header # <<>> -> HeaderLabels(doc, n)
      [] doc.header = <<>> /\ doc.kind = "signal" /\ doc.format = "csv" -> NoLabels(n)
      [] OTHER -> FileLabels(doc, n)

\* a data set is a record [rate, off, lab, ch]; rate is the sampling rate or the resolution
\* the rows can be in any order
SignalOf(doc) ==
    LET first == MinSet(Times(doc))
        n     == Len(doc.rows)
    IN [rate |-> IF n > 1 THEN <<doc.unit[2], doc.unit[1]>>
                 ELSE IF first = 0 THEN <<48000, 1>> ELSE <<doc.unit[2], doc.unit[1] * Abs(first)>>,
        off  |-> IF n > 1 THEN first ELSE IF first = 0 THEN 0 ELSE first \div Abs(first),
        lab  |-> LabelsOf(doc),
        ch   |-> [c \in 1 .. NumberOfChannels(doc) |-> [i \in 1 .. n |-> RowAt(doc, first + i - 1).v[c]]]]

\* the missing samples below the first frequency are zero, those at negative frequencies are cropped
SpectrumOf(doc) ==
    LET last == MaxSet(Times(doc))
        n    == MaxSet({0, last + 1})
    IN [rate |-> doc.unit,
        off  |-> 0,
        lab  |-> LabelsOf(doc),
        ch   |-> [c \in 1 .. NumberOfChannels(doc) |-> [i \in 1 .. n |-> IF i - 1 \in Times(doc) THEN RowAt(doc, i - 1).v[c] ELSE Zero]]]

\* the channels of bands are sets of pairs of a frequency and a value; a line with less columns than others only has values for
\* the first channels
BandsOf(doc) ==
    [lab |-> LabelsOf(doc),
     ch  |-> [c \in 1 .. NumberOfChannels(doc) |->
                 {<<doc.rows[r].t, doc.rows[r].v[c]>> :
                     r \in {x \in DOMAIN doc.rows : doc.rows[x].t # NoFrequency /\ Len(doc.rows[x].v) >= c /\ doc.rows[x].v[c] # Missing}}]]

\* left out meta data have the same values as those, that are not given to the constructor
Has(doc, key) == key \in RangeOf(doc.keys)
DictOf(doc) ==
    [sr  |-> IF doc.type = "spectrum" THEN <<0, 1>> ELSE IF Has(doc, "sampling_rate") THEN doc.meta.sr ELSE <<48000, 1>>,
     res |-> IF doc.type = "signal" THEN <<0, 1>> ELSE IF Has(doc, "resolution") THEN doc.meta.res ELSE <<1, 1>>,
     off |-> IF doc.type # "spectrum" /\ Has(doc, "offset") THEN doc.meta.off ELSE 0,
     lab |-> IF Has(doc, "labels") THEN doc.meta.lab ELSE NoLabels(Len(doc.meta.lab))]

SameFraction(x, y) == x[1] * y[2] = y[1] * x[2]
==============================================================================
