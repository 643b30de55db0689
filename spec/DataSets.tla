------------------------------ MODULE DataSets ------------------------------
(* The abstract data sets of SuMPF.                                           *)
(*                                                                            *)
(* A data set is a record                                                     *)
(*   k    "signal", "spectrum", "spectrogram" or "filter"                     *)
(*   nc   the number of channels                                              *)
(*   nf   the number of frequency bins (1 for all but spectrograms)           *)
(*   len  the number of samples                                               *)
(*   off  the offset (0 for spectrums and filters)                            *)
(*   sr   the sampling rate (0 where there is none)                           *)
(*   res  the frequency resolution (0 where there is none)                    *)
(*   lab  the sequence of labels                                              *)
(*   ch   the samples: ch[c][f][i] is a pair <<real, imaginary>> of integers  *)
EXTENDS Integers, Sequences, FiniteSets

MaxSet(S) == CHOOSE x \in S : \A y \in S : x >= y
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(a, b) == IF a >= b THEN a ELSE b
MinOf(a, b) == IF a <= b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
RangeOf(s) == {s[i] : i \in DOMAIN s}

Zero == <<0, 0>>
CAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
CSub(x, y) == <<x[1] - y[1], x[2] - y[2]>>
CMul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
CNeg(x) == <<-x[1], -x[2]>>

RECURSIVE SumInts(_)
SumInts(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumInts(Tail(s))
RECURSIVE SumPairs(_)
SumPairs(s) == IF s = <<>> THEN Zero ELSE CAdd(Head(s), SumPairs(Tail(s)))

\* the points in time (sample index plus offset), that are covered by a data set
Start(d) == d.off
Stop(d) == d.off + d.len
Covers(d, t) == d.off <= t /\ t < d.off + d.len

\* the sample of channel c, frequency bin f at the point in time t; zero outside the data set's extent
At(d, c, f, t) ==
    IF c \in 1 .. d.nc /\ f \in 1 .. d.nf /\ Covers(d, t) THEN d.ch[c][f][t - d.off + 1] ELSE Zero

\* builds a channels array from a function of channel, bin and sample index (all starting at 1)
Build(nc, nf, len, F(_, _, _)) == [c \in 1 .. nc |-> [f \in 1 .. nf |-> [i \in 1 .. len |-> F(c, f, i)]]]

IsDataSet(d) ==
    /\ d.nc = Len(d.ch)
    /\ Len(d.lab) = d.nc
    /\ \A c \in 1 .. d.nc : Len(d.ch[c]) = d.nf /\ \A f \in 1 .. d.nf : Len(d.ch[c][f]) = d.len
=============================================================================
