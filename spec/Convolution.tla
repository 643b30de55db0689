---------------------------- MODULE Convolution ----------------------------
(* Convolution and correlation of signals (C10)                               *)
EXTENDS DataSets

ConvolutionModes == {"FULL", "SAME", "VALID", "SPECTRUM", "SPECTRUM_PADDED"}

\* the sample of channel c, at the index i counted from zero, zero outside
At0(d, c, i) == IF 0 <= i /\ i < d.len THEN d.ch[IF d.nc = 1 THEN 1 ELSE c][1][i + 1][1] ELSE 0

\* F(0) + ... + F(n - 1)
SumOver(n, F(_)) == SumInts([i \in 1 .. n |-> F(i - 1)])

EvenLength(n) == IF n % 2 = 0 THEN n ELSE n + 1

\* the linear convolution at index n and the circular one with the given period
Linear(a, b, c, n) == LET F(i) == At0(a, c, i) * At0(b, c, n - i) IN SumOver(a.len, F)
Circular(a, b, c, n, period) ==
    LET F(i) == At0(a, c, i) * At0(b, c, (n - i) % period) IN SumOver(a.len, F)

\* the correlation: the convolution of the reversed a with b; index 0 is at the lag -(a.len - 1)
Mirror(a) == [a EXCEPT !.ch = [c \in 1 .. a.nc |-> [f \in 1 .. 1 |-> [i \in 1 .. a.len |-> a.ch[c][1][a.len + 1 - i]]]]]

\* index of the first sample of the result within the full linear result, and the length of the result
First(a, b, mode) ==
    CASE mode = "SAME" -> (MinOf(a.len, b.len) - 1) \div 2
      [] mode = "VALID" -> MinOf(a.len, b.len) - 1
      [] OTHER -> 0
ResultLength(a, b, mode) ==
    CASE mode = "SAME" -> MaxOf(a.len, b.len)
      [] mode = "SPECTRUM" -> MaxOf(a.len, b.len)
      [] mode = "VALID" -> Abs(a.len - b.len) + 1
      [] OTHER -> a.len + b.len - 1

ResultChannels(a, b) == IF a.nc = 1 THEN b.nc ELSE IF b.nc = 1 THEN a.nc ELSE MinOf(a.nc, b.nc)

\* b is a signal or an array (with offset 0); label is <<>> for arrays, so that the labels of a are kept
Result(a, b, mode, off, label) ==
    LET nc == ResultChannels(a, b)
        len == ResultLength(a, b, mode)
        period == EvenLength(len)
        first == First(a, b, mode)
        F(c, f, i) == <<IF mode = "SPECTRUM" THEN Circular(a, b, c, i - 1, period) ELSE Linear(a, b, c, first + i - 1), 0>>
    IN [a EXCEPT !.nc = nc, !.len = len, !.off = off + first,
                 !.lab = [c \in 1 .. nc |-> IF label # <<>> THEN label[1] ELSE IF c <= a.nc THEN a.lab[c] ELSE ""],
                 !.ch = Build(nc, 1, len, F)]

Convolve(a, b, mode, label) == Result(a, b, mode, a.off + b.off, label)
Correlate(a, b, mode, label) == Result(Mirror(a), b, mode, b.off - a.off - (a.len - 1), label)

\* scalars scale the signal
Scale(a, x) == LET F(c, f, i) == <<x * a.ch[c][f][i][1], 0>> IN [a EXCEPT !.ch = Build(a.nc, 1, a.len, F)]
=============================================================================
