------------------------------ MODULE Fourier ------------------------------
(* The Fourier transforms of signals (C11), specified in the time domain.     *)
(*                                                                            *)
(* A spectrum with the bins 0 .. N \div 2 of a real signal is represented by  *)
(* the sequence y[0 .. N-1] of rational numbers, whose discrete Fourier       *)
(* transform it is ("circular form"). Delaying by one sample rotates y.       *)
(* A rational number is a pair <<numerator, denominator>>.                    *)
EXTENDS DataSets

Windows == {"signal", "array", "matrix", "list", "int"}

X(s, c, t) == IF t < 0 \/ t >= s.len THEN 0 ELSE s.ch[IF s.nc = 1 THEN 1 ELSE c][1][t + 1][1]

\* F(a) + ... + F(b)
SumFromTo(a, b, F(_)) == IF b < a THEN 0 ELSE SumInts([k \in 1 .. b - a + 1 |-> F(a + k - 1)])

\* the sum of all v(t), whose point in time t + off is congruent to m
FoldedAt(len, off, N, m, V(_)) ==
    LET first == (m - off) % N
        count == IF first >= len THEN 0 ELSE (len - 1 - first) \div N + 1
    IN SumFromTo(0, count - 1, LAMBDA k : V(first + k * N))

Bins(N) == N \div 2 + 1
Rat(a, b) == <<a, b>>
\* b > 0 for all expected values
Equal(o, x) == o[2] > 0 /\ o[1] * x[2] = x[1] * o[2]

QInt(q) == IF q[1] % q[2] = 0 THEN <<q[1] \div q[2], 1>> ELSE q
RateDiv(r, n) == LET g == CHOOSE d \in {k \in 1 .. n : n % k = 0 /\ r[1] % k = 0} : \A k \in {j \in 1 .. n : n % j = 0 /\ r[1] % j = 0} : k <= d
                 IN <<r[1] \div g, r[2] * (n \div g)>>

-----------------------------------------------------------------------------
(* the full transform *)
Period(s) == MaxOf(s.len, 1)
Full(s) == [c \in 1 .. s.nc |-> [m \in 1 .. Period(s) |-> Rat(FoldedAt(s.len, s.off, Period(s), m - 1, LAMBDA t : X(s, c, t)), 1)]]
FullResolution(s) == RateDiv(s.sr, Period(s))

(* the transform and its inverse: the samples are rotated to their points in time modulo the length *)
-----------------------------------------------------------------------------
(* windows: w.ch[c][n], L = w.len; the segments start at the multiples of the step *)
W(w, c, n) == w.ch[IF w.nc = 1 THEN 1 ELSE c][n + 1]

CeilDiv(a, b) == -((-a) \div b)
\* the indices j of the segments [j * step, j * step + L), that contain the sample t
Segments(t, L, step) == {j \in CeilDiv(t - L + 1, step) .. t \div step : TRUE}
\* without padding, only segments, that lie inside the signal are used
Used(j, len, L, step, pad) == pad \/ (j >= 0 /\ j * step + L <= len)

RECURSIVE SumOverSet(_, _, _, _)
SumOverSet(S, w, c, tstep) ==  \* tstep = <<t, step>>
    IF S = {} THEN 0 ELSE LET j == CHOOSE j \in S : TRUE IN W(w, c, tstep[1] - j * tstep[2]) + SumOverSet(S \ {j}, w, c, tstep)

\* the sum of the weights, with which the windows cover the sample t
Weight(s, w, c, t, step, pad) ==
    SumOverSet({j \in Segments(t, w.len, step) : Used(j, s.len, w.len, step, pad)}, w, c, <<t, step>>)

\* the sum of all overlapping windows over the length of one window
Added(w, c, step) == SumFromTo(0, w.len - 1, LAMBDA n : SumOverSet(Segments(n, w.len, step), w, c, <<n, step>>))

BlockChannels(s, w) == MaxOf(s.nc, w.nc)
Compatible(s, w) == s.nc = w.nc \/ s.nc = 1 \/ w.nc = 1
Blocks(s, w, step, pad) ==
    [c \in 1 .. BlockChannels(s, w) |->
        [m \in 1 .. w.len |->
            Rat(w.len * FoldedAt(s.len, s.off, w.len, m - 1, LAMBDA t : X(s, c, t) * Weight(s, w, c, t, step, pad)),
                Added(w, c, step))]]

-----------------------------------------------------------------------------
(* the short time transform: with padding, the segments are centered at the multiples of the step, and the signal is *)
(* padded with zeros, so that the segments cover all of it                                                           *)
Half(L, pad) == IF pad THEN L \div 2 ELSE 0
Columns(s, L, step, pad) ==
    IF pad THEN CeilDiv(s.len + 2 * (L \div 2) - L, step) + 1 ELSE (s.len - L) \div step + 1
WindowSum(w, c) == SumFromTo(0, w.len - 1, LAMBDA n : W(w, c, n))
\* r: the part of the offset, that is not a multiple of the step, is a delay inside of the segments
Short(s, w, step, pad, r) ==
    [c \in 1 .. s.nc |->
        [col \in 1 .. Columns(s, w.len, step, pad) |->
            [m \in 1 .. w.len |->
                LET n == (m - 1 - r) % w.len
                IN Rat(W(w, c, n) * X(s, c, (col - 1) * step - Half(w.len, pad) + n), WindowSum(w, c))]]]
\* the offset of the spectrogram is the nearest one
IsNearest(o, off, step) == 2 * Abs(off - o * step) <= step

InverseLength(s, L, step, pad) == L + (Columns(s, L, step, pad) - 1) * step - (IF pad THEN 2 * (L \div 2) ELSE 0)

-----------------------------------------------------------------------------
(* the inverse of a signal: its circular convolution with the signal is an impulse. For these lengths, the condition, *)
(* that no bin is zero can be decided by factorising x^n - 1.                                                          *)
SumOf(x) == SumInts(x)
NotAllEqual(x) == \E i \in DOMAIN x : x[i] # x[1]
Alternating(x) == SumInts([i \in DOMAIN x |-> IF i % 2 = 1 THEN x[i] ELSE -x[i]])
Foldx(x, n) == [i \in 1 .. n |-> SumFromTo(0, Len(x) \div n - 1, LAMBDA k : x[i + k * n])]
Invertible(x) ==
    LET n == Len(x) IN
    CASE n = 1 -> x[1] # 0
      [] n = 2 -> SumOf(x) # 0 /\ Alternating(x) # 0
      [] n \in {3, 5, 7, 11} -> SumOf(x) # 0 /\ NotAllEqual(x)
      [] n = 4 -> SumOf(x) # 0 /\ Alternating(x) # 0 /\ (x[1] # x[3] \/ x[2] # x[4])
      [] n = 6 -> LET z == [i \in 1 .. 3 |-> x[i] - x[i + 3]] IN
                  /\ SumOf(x) # 0 /\ Alternating(x) # 0 /\ NotAllEqual(Foldx(x, 3))
                  /\ ~(z[1] = z[3] /\ z[2] = -z[3])
InvertibleLengths == {1, 2, 3, 4, 5, 6, 7, 11}
\* y is given as fixed point numbers with the given scale
IsInverse(x, y, scale) ==
    LET n == Len(x)
        At1(s, k) == s[(k % n) + 1]
        Conv(m) == SumFromTo(0, n - 1, LAMBDA k : x[k + 1] * At1(y, m - k))
        tolerance == SumInts([k \in 1 .. n |-> Abs(x[k])]) + 2
    IN \A m \in 0 .. n - 1 : Abs(Conv(m) - (IF m = 0 THEN scale ELSE 0)) <= tolerance
=============================================================================
