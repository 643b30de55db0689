------------------------------ MODULE Equality ------------------------------
(* When are two objects equal?                                                *)
(*                                                                            *)
(* An object is a record of its observable content                            *)
(*   k      "signal", "spectrum", "spectrogram", "filter", "term" or, for     *)
(*          objects, that are no data sets, "other"                           *)
(*   shape  the sequence of the sizes of the axes                             *)
(*   ch     one sequence of values per channel (samples or descriptions of    *)
(*          the transfer functions)                                           *)
(*   rates  the sampling rate and/or the resolution                           *)
(*   off    the offset                                                        *)
(*   lab    the labels                                                        *)
(*   nan    TRUE, if one of the values is NaN                                 *)
EXTENDS Integers, Sequences

Equal(a, b) ==
    /\ a.k = b.k /\ a.k # "other"
    /\ a.shape = b.shape
    /\ a.ch = b.ch
    /\ a.rates = b.rates
    /\ a.off = b.off
    /\ a.lab = b.lab

\* NaN is unequal to itself. Whether a data set with NaNs equals its copies, is not specified.
Specified(a, b) == ~ (a.nan /\ b.nan /\ Equal(a, b))

\* the labels of n channels, if the constructor is given the labels s
RECURSIVE Sanitized(_, _)
Sanitized(s, n) ==
    CASE n = 0 -> <<>>
      [] s = <<>> -> [i \in 1 .. n |-> ""]
      [] OTHER -> <<Head(s)>> \o Sanitized(Tail(s), n - 1)

\* a Bands filter fills up its labels with the first one
BandsSanitized(s, n) ==
    IF Len(s) >= n THEN SubSeq(s, 1, n) ELSE s \o [i \in 1 .. n - Len(s) |-> IF s = <<>> THEN "Bands" ELSE s[1]]

(* Terms: [t |-> type, p |-> parameters, tr |-> transform, x |-> operands]    *)
\* the comparison, as it is done by the code: recursively and step by step
RECURSIVE TermEqual(_, _), AllEqual(_, _)
TermEqual(a, b) ==
    CASE a.t # b.t -> FALSE
      [] Len(a.p) # Len(b.p) -> FALSE
      [] \E i \in DOMAIN a.p : a.p[i] # b.p[i] -> FALSE
      [] Len(a.x) # Len(b.x) -> FALSE
      [] ~ AllEqual(a.x, b.x) -> FALSE
      [] OTHER -> a.tr = b.tr
AllEqual(s, u) == IF s = <<>> \/ u = <<>> THEN TRUE ELSE TermEqual(Head(s), Head(u)) /\ AllEqual(Tail(s), Tail(u))
=============================================================================
