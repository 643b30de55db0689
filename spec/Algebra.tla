------------------------------ MODULE Algebra ------------------------------
(* Sample-wise algebra with data sets (C05, C06).                             *)
(*                                                                            *)
(* Samples are pairs of integers. Every result is scaled by an integer s, so  *)
(* that quotients of small integers are integers, too. Real quotients, that   *)
(* are not finite, are the reserved integers NAN, INF and NINF.               *)
EXTENDS DataSets

NAN == 2000000001
INF == 2000000002
NINF == 2000000003
INEXACT == 2000000004

Operators == {"+", "-", "*", "/", "%", "**"}
OperatorLabel == [o \in Operators |->
    CASE o = "+" -> "Sum" [] o = "-" -> "Difference" [] o = "*" -> "Product"
      [] o = "/" -> "Quotient" [] o = "%" -> "Modulo" [] o = "**" -> "Power"]

Conj(x) == <<x[1], -x[2]>>
AbsSq(x) == x[1] * x[1] + x[2] * x[2]
Scaled(s, x) == <<s * x[1], s * x[2]>>

\* the quotient n / d of integers, d > 0, if it is an integer
Exact(n, d) == IF n % d = 0 THEN n \div d ELSE INEXACT

RealDiv(s, x, y) ==
    IF y = 0 THEN IF x = 0 THEN NAN ELSE IF x > 0 THEN INF ELSE NINF
    ELSE IF y > 0 THEN Exact(s * x, y) ELSE Exact(-(s * x), -y)

Div(s, cplx, x, y) ==
    IF ~cplx THEN <<RealDiv(s, x[1], y[1]), 0>>
    ELSE IF y = Zero THEN <<INEXACT, INEXACT>>
    ELSE LET n == CMul(x, Conj(y)) IN <<Exact(s * n[1], AbsSq(y)), Exact(s * n[2], AbsSq(y))>>

\* the floored modulo, its sign is the one of the divisor
Mod(x, y) == IF y = 0 THEN NAN ELSE IF y > 0 THEN x % y ELSE -((-x) % (-y))

RECURSIVE Power(_, _)
Power(x, n) == IF n = 0 THEN <<1, 0>> ELSE CMul(x, Power(x, n - 1))

BinOp(o, s, cplx, x, y) ==
    CASE o = "+" -> Scaled(s, CAdd(x, y))
      [] o = "-" -> Scaled(s, CSub(x, y))
      [] o = "*" -> Scaled(s, CMul(x, y))
      [] o = "/" -> Div(s, cplx, x, y)
      [] o = "%" -> LET m == Mod(x[1], y[1]) IN IF m = NAN THEN <<NAN, 0>> ELSE <<s * m, 0>>
      [] o = "**" -> Scaled(s, Power(x, y[1]))

\* what the result holds, where only the right operand has a sample
OnlyRight(o, s, cplx, y) ==
    CASE o = "-" -> Scaled(s, CNeg(y))
      [] o = "/" -> Div(s, cplx, <<1, 0>>, y)
      [] OTHER -> Scaled(s, y)

IsComplex(d) == d.k # "signal"

HasChannel(d, c) == d.nc = 1 \/ c <= d.nc
Has(d, c, f, t) == HasChannel(d, c) /\ f <= d.nf /\ Covers(d, t)
Sample(d, c, f, t) == d.ch[IF d.nc = 1 THEN 1 ELSE c][f][t - d.off + 1]

\* the combination of the data sets a (left) and b (right), which have the same kind; m has the meta data of the result
Combine(o, s, a, b, m) ==
    LET off == MinOf(a.off, b.off)
        len == MaxOf(Stop(a), Stop(b)) - off
        nf == MaxOf(a.nf, b.nf)
        nc == MaxOf(a.nc, b.nc)
        cplx == IsComplex(m)
        F(c, f, i) == LET t == off + i - 1
                          ha == Has(a, c, f, t)
                          hb == Has(b, c, f, t)
                      IN IF ha /\ hb THEN BinOp(o, s, cplx, Sample(a, c, f, t), Sample(b, c, f, t))
                         ELSE IF ha THEN Scaled(s, Sample(a, c, f, t))
                         ELSE IF hb THEN OnlyRight(o, s, cplx, Sample(b, c, f, t))
                         ELSE Zero
    IN [k |-> m.k, nc |-> nc, nf |-> nf, len |-> len, off |-> off, sr |-> m.sr, res |-> m.res,
        lab |-> [c \in 1 .. nc |-> OperatorLabel[o]], ch |-> Build(nc, nf, len, F)]

\* a signal holds for each frequency bin, a spectrum for each time sample of a spectrogram
LiftSignal(d, g) == [d EXCEPT !.nf = g.nf, !.ch = [c \in 1 .. d.nc |-> [f \in 1 .. g.nf |-> d.ch[c][1]]]]
LiftSpectrum(d, g) == [d EXCEPT !.nf = d.len, !.len = g.len, !.off = g.off,
                                !.ch = [c \in 1 .. d.nc |-> [f \in 1 .. d.len |-> [i \in 1 .. g.len |-> d.ch[c][1][f]]]]]
Lift(d, g) == CASE d.k = "signal" -> LiftSignal(d, g) [] d.k = "spectrum" -> LiftSpectrum(d, g) [] OTHER -> d

Error(name) == [k |-> "error", exc |-> name]

\* the result of the operator o for the data sets a and b
Binary(o, s, a, b) ==
    IF o = "%" /\ ~(a.k = "signal" /\ b.k = "signal") THEN Error("TypeError")
    ELSE IF a.k = b.k THEN Combine(o, s, a, b, a)
    ELSE IF a.k = "spectrogram" THEN
        IF b.k = "spectrum" /\ b.len # a.nf THEN Error("ValueError") ELSE Combine(o, s, a, Lift(b, a), a)
    ELSE IF b.k = "spectrogram" THEN
        IF a.k = "spectrum" /\ a.len # b.nf THEN Error("ValueError") ELSE Combine(o, s, Lift(a, b), b, b)
    ELSE Error("TypeError")

\* numbers and arrays: a record with the sizes nc, nf, len, of which each is either 1 or that of the data set
Fits(r, d) == r.nc \in {1, d.nc} /\ r.nf \in {1, d.nf} /\ r.len \in {1, d.len}
ArrayAt(r, c, f, i) == r.ch[IF r.nc = 1 THEN 1 ELSE c][IF r.nf = 1 THEN 1 ELSE f][IF r.len = 1 THEN 1 ELSE i]

WithArray(o, s, d, r, arrayIsLeft) ==
    IF o = "%" /\ d.k # "signal" THEN Error("TypeError")
    ELSE IF d.k = "signal" /\ r.cplx THEN Error("TypeError")
    ELSE IF ~Fits(r, d) THEN Error("ValueError")
    ELSE LET F(c, f, i) == LET x == d.ch[c][f][i]
                               y == ArrayAt(r, c, f, i)
                           IN IF arrayIsLeft THEN BinOp(o, s, IsComplex(d), y, x) ELSE BinOp(o, s, IsComplex(d), x, y)
         IN [d EXCEPT !.ch = Build(d.nc, d.nf, d.len, F)]

------------------------------------------------------------------------------
\* unary operators
Map(d, F(_)) == LET G(c, f, i) == F(d.ch[c][f][i]) IN [d EXCEPT !.ch = Build(d.nc, d.nf, d.len, G)]

Negative(s, d) == LET F(x) == Scaled(s, CNeg(x)) IN Map(d, F)
Magnitude(x) == IF x[2] = 0 THEN Abs(x[1]) ELSE IF x[1] = 0 THEN Abs(x[2])
                ELSE LET R == {r \in 0 .. 400 : r * r = AbsSq(x)} IN IF R = {} THEN INEXACT ELSE CHOOSE r \in R : TRUE
Absolute(s, d) == LET F(x) == <<s * Magnitude(x), 0>> IN Map(d, F)
Conjugated(s, d) == LET F(x) == Scaled(s, Conj(x)) IN Map(d, F)
Inverse(s, d) == LET F(x) == Div(s, TRUE, <<1, 0>>, x) IN Map(d, F)
Real(s, d) == LET F(x) == <<s * x[1], 0>> IN Map(d, F)
Imaginary(s, d) == LET F(x) == <<s * x[2], 0>> IN Map(d, F)

\* the phase in multiples of pi/4 for samples on the axes and diagonals
PhaseOf(x) ==
    CASE x = Zero -> 0
      [] x[2] = 0 -> IF x[1] > 0 THEN 0 ELSE 4
      [] x[1] = 0 -> IF x[2] > 0 THEN 2 ELSE -2
      [] x[1] = x[2] -> IF x[1] > 0 THEN 1 ELSE -3
      [] x[1] = -x[2] -> IF x[1] > 0 THEN -1 ELSE 3
      [] OTHER -> INEXACT
Phase(s, d) == LET F(x) == <<s * PhaseOf(x), 0>> IN Map(d, F)

\* the points in time and frequency, for which the samples are
TimeSamples(d) == [i \in 1 .. d.len |-> d.off + i - 1]
FrequencySamples(d) == [i \in 1 .. (IF d.k = "spectrum" THEN d.len ELSE d.nf) |-> i - 1]
=============================================================================
