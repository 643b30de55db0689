------------------------------- MODULE TablesMC -------------------------------
(* All small tables. The documents are printed, so that they can be written   *)
(* and loaded.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

B == INSTANCE Tables

VARIABLES doc

Lines == atoi(IOEnv.LINES)      \* the maximum number of lines of the bands

Doc(kind, format, rows, header, keys, type) ==
    [kind |-> kind, format |-> format, file |-> "t." \o format, unit |-> <<1, 4>>, rows |-> rows, header |-> header, keys |-> keys, type |-> type,
     meta |-> [sr |-> <<8, 1>>, res |-> <<3, 2>>, off |-> -2, lab |-> <<"x", "y">>], text |-> TRUE]

\* a value, that can be told apart from others
Val(t, c) == <<ToString(10 * c + t) \o ".0", "0.0">>
Perms(S) == {p \in [1 .. Cardinality(S) -> S] : \A i, j \in DOMAIN p : i # j => p[i] # p[j]}
Rows(p, nc) == [r \in DOMAIN p |-> [t |-> p[r], v |-> [c \in 1 .. nc |-> Val(p[r], c)]]]
Headers(nc) == {<<>>} \union {<<[c \in 1 .. n |-> IF c = 1 THEN "first" ELSE "other"]>> : n \in (IF nc > 1 THEN nc - 1 ELSE nc) .. (nc + 1)}

RegularDocs ==
    UNION {{Doc(k, "csv", Rows(p, nc), h, <<>>, "") : p \in Perms(first .. first + n - 1), h \in Headers(nc), k \in {"signal", "spectrum"}}
           \union {Doc(k, "npy", Rows(p, nc), <<>>, <<>>, "") : p \in Perms(first .. first + n - 1), k \in {"signal", "spectrum"}}
           : nc \in 1 .. 2, n \in 2 .. 3, first \in -2 .. 2}
SingleDocs == {Doc("signal", "csv", Rows(<<t>>, nc), h, <<>>, "") : t \in -2 .. 2, nc \in 1 .. 2, h \in {<<>>, <<<<"a">>>>}}

\* the values of a line: every value is real, complex or missing
Kinds == {"r", "c", "m"}
LineKinds == {<<>>} \union [1 .. 1 -> Kinds] \union [1 .. 2 -> Kinds]
LineVal(k, l, c) == CASE k = "r" -> <<ToString(10 * l + c) \o ".0", "0.0">>
                      [] k = "c" -> <<ToString(10 * l + c) \o ".0", "-" \o ToString(c) \o ".5">>
                      [] OTHER -> B!Missing
LineRow(ks, l, no) == [t |-> IF no THEN B!NoFrequency ELSE ToString(100 * l) \o ".0", v |-> [c \in DOMAIN ks |-> LineVal(ks[c], l, c)]]
BandsDocs == UNION {{Doc("bands", "dat", [l \in 1 .. n |-> LineRow(kk[l], l, l = no)], <<>>, <<>>, "") : kk \in [1 .. n -> LineKinds], no \in 0 .. n} : n \in 1 .. Lines}

Keys == {"sampling_rate", "resolution", "offset", "labels"}
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
DictDocs == {Doc("dict", f, <<>>, <<>>, SetToSeq(ks), type) : f \in {"json", "npz"}, ks \in SUBSET Keys, type \in {"signal", "spectrum", "spectrogram"}}

Init == doc \in RegularDocs \union SingleDocs \union BandsDocs \union DictDocs
Next == FALSE /\ UNCHANGED doc
Spec == Init /\ [][Next]_doc

------------------------------------------------------------------------------
Reverse(s) == [k \in DOMAIN s |-> s[Len(s) + 1 - k]]
Reversed == [doc EXCEPT !.rows = Reverse(doc.rows)]
Result(d) == CASE d.kind = "signal" -> B!SignalOf(d) [] d.kind = "spectrum" -> B!SpectrumOf(d) [] d.kind = "dict" -> B!DictOf(d) [] OTHER -> B!BandsOf(d)

\* the order of the rows does not matter
OrderInvariant == Result(doc) = Result(Reversed)
\* no sample is lost, but those of negative frequencies
Complete == /\ doc.kind = "signal" => \A r \in DOMAIN doc.rows, c \in 1 .. B!NumberOfChannels(doc) :
                                          \E k \in 1 .. Len(doc.rows) : Result(doc).ch[c][k] = doc.rows[r].v[c]
            /\ doc.kind = "spectrum" => \A r \in DOMAIN doc.rows : doc.rows[r].t >= 0 =>
                                            \A c \in 1 .. B!NumberOfChannels(doc) : Result(doc).ch[c][doc.rows[r].t + 1] = doc.rows[r].v[c]
Labelled == doc.kind # "dict" => Len(Result(doc).lab) = Len(Result(doc).ch)
Regular == doc.kind \in {"signal", "spectrum"} => B!IsRegular(doc)
Inv == OrderInvariant /\ Complete /\ Labelled /\ Regular
Constraint == PrintT("@DOC " \o ToJson(doc))
==============================================================================
