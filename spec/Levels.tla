------------------------------- MODULE Levels -------------------------------
(* Levels, statistics and energy decay of real channels.                      *)
(*                                                                            *)
(* Samples are integers and every result is an exact fraction <<num, den>>    *)
(* with a positive denominator (levels, standard deviations and skewness are  *)
(* compared by their squares). Results, that are not defined, have the        *)
(* denominator zero.                                                          *)
EXTENDS Integers, Sequences

RECURSIVE Sum(_), SumProducts(_, _)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
SumProducts(s, t) == IF s = <<>> THEN 0 ELSE Head(s) * Head(t) + SumProducts(Tail(s), Tail(t))
Power(x, k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN x ELSE IF k = 2 THEN x * x ELSE IF k = 3 THEN x * x * x ELSE x * x * x * x
Moment(s, k) == Sum([i \in DOMAIN s |-> Power(s[i], k)])
Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
Clamp(x, a, b) == IF x < a THEN a ELSE IF x > b THEN b ELSE x

RECURSIVE Concatenated(_)
Concatenated(ch) == IF ch = <<>> THEN <<>> ELSE Head(ch) \o Concatenated(Tail(ch))

(* ------------------------------- statistics ------------------------------- *)
LevelSquare(s) == <<Moment(s, 2), Len(s)>>
Mean(s) == <<Sum(s), Len(s)>>
\* n^2, n^3 and n^4 times the second, third and fourth central moment
Central2(s) == Len(s) * Moment(s, 2) - Power(Sum(s), 2)
Central3(s) == Power(Len(s), 2) * Moment(s, 3) - 3 * Len(s) * Sum(s) * Moment(s, 2) + 2 * Power(Sum(s), 3)
Central4(s) == Power(Len(s), 3) * Moment(s, 4) - 4 * Power(Len(s), 2) * Sum(s) * Moment(s, 3)
               + 6 * Len(s) * Power(Sum(s), 2) * Moment(s, 2) - 3 * Power(Sum(s), 4)
Variance(s) == <<Central2(s), Len(s) * Len(s)>>
\* the skewness times its absolute value
SkewnessSquare(s) == LET c == Central3(s) IN <<c * Abs(c), Power(Central2(s), 3)>>
Kurtosis(s) == LET c == Central2(s) IN <<Central4(s) - 3 * c * c, c * c>>

Statistic(what, s) ==
    CASE what = "level" -> LevelSquare(s)
      [] what = "mean" -> Mean(s)
      [] what \in {"variance", "standard_deviation"} -> Variance(s)
      [] what = "skewness" -> SkewnessSquare(s)
      [] what = "kurtosis" -> Kurtosis(s)

(* The level of a spectrum with Gaussian integers <<re, im>> as bins is that of the signal with the length 2 * (n - 1), that it belongs to *)
SquareMagnitude(z) == z[1] * z[1] + z[2] * z[2]
SignalLength(bins) == IF Len(bins) < 2 THEN 1 ELSE 2 * (Len(bins) - 1)
SpectrumEnergy(bins) == Sum([i \in DOMAIN bins |-> SquareMagnitude(bins[i]) * (IF i = 1 \/ i = Len(bins) THEN 1 ELSE 2)])
SpectrumLevelSquare(bins) == <<SpectrumEnergy(bins), SignalLength(bins) * SignalLength(bins)>>
\* the mean of the squared levels of all channels
SpectrumsLevelSquare(ch) == <<Sum([c \in DOMAIN ch |-> SpectrumEnergy(ch[c])]), SignalLength(ch[1]) * SignalLength(ch[1]) * Len(ch)>>

(* ----------------------------- level over time ---------------------------- *)
(* The interval with the length w (given in quarters of a sample as q) is     *)
(* centred at the sample. Each sample of the signal is weighted with the part *)
(* of its duration, that lies in the interval (in eighths of a sample).       *)
Weight(distance, q) == Clamp(q + 4 - 8 * distance, 0, 8)
Weights(n, t, q) == [j \in 1 .. n |-> Weight(Abs(t - j), q)]
LevelVsTimeSquare(s, t, q, pad) ==
    IF q <= 4 THEN <<s[t] * s[t], 1>>
    ELSE LET w == Weights(Len(s), t, q) IN
         <<SumProducts(w, [j \in DOMAIN s |-> s[j] * s[j]]), IF pad THEN 2 * q ELSE Sum(w)>>

(* ------------------------------- energy decay ----------------------------- *)
EnergyDecay(s) == [t \in DOMAIN s |-> Moment(SubSeq(s, t, Len(s)), 2)]

(* The least squares line y = m * i + n through the points <<i, y[i + 1]>>, i \in start .. stop - 1 *)
Line(y, start, stop) ==
    LET points == [k \in 1 .. stop - start |-> start + k - 1]
        values == [k \in 1 .. stop - start |-> y[start + k]]
        N == stop - start
        D == N * Moment(points, 2) - Power(Sum(points), 2)
        M == N * SumProducts(points, values) - Sum(points) * Sum(values)
        C == Moment(points, 2) * Sum(values) - Sum(points) * SumProducts(points, values)
    IN [m |-> <<M, D>>, n |-> <<C, D>>]
LineAt(line, i) == <<line.m[1] * i + line.n[1], line.m[2]>>

(* -------------------------------- fractions ------------------------------- *)
\* floor(num / den * 10^digits), computed by long division
RECURSIVE Divide(_, _, _, _)
Divide(quotient, remainder, den, digits) ==
    IF digits = 0 THEN quotient
    ELSE Divide(quotient * 10 + (remainder * 10) \div den, (remainder * 10) % den, den, digits - 1)
Fixed(f, digits) ==
    LET a == Divide(Abs(f[1]) \div f[2], Abs(f[1]) % f[2], f[2], digits) IN IF f[1] < 0 THEN -a ELSE a
Digits == 6
Equals(recorded, f) == f[2] > 0 /\ Abs(recorded - Fixed(f, Digits)) <= 2
=============================================================================
