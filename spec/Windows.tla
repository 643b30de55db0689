------------------------------ MODULE Windows ------------------------------
(* Window functions: how a window is composed of a prototype and a plateau,   *)
(* exact prototypes for the windows with rational samples and the statistics  *)
(* for block-wise processing with overlapping segments.                       *)
(*                                                                            *)
(* Exact samples are integers, that have to be divided by a common            *)
(* denominator. Fractions are pairs <<numerator, denominator>>.               *)
EXTENDS Integers, Sequences, FiniteSets

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
MinOf(s) == CHOOSE x \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : x <= s[i]
MaxOf(s) == CHOOSE x \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : x >= s[i]

(* ------------------------------- composition ------------------------------ *)
FadeLength(length, plateau) == (length - plateau) \div 2
\* the length, with which the prototype is computed
ProtoLength(length, plateau, symmetric) ==
    LET n == IF plateau = 0 THEN length ELSE 2 * FadeLength(length, plateau)
    IN IF symmetric THEN n ELSE n + 1
\* the sample t (starting with zero) of a window: an index of the prototype (starting with one) or zero for a sample in the plateau
Source(length, plateau, t) ==
    IF plateau = 0 THEN t + 1
    ELSE LET f == FadeLength(length, plateau) IN
         IF t < f THEN t + 1 ELSE IF t < length - f THEN 0 ELSE t - (length - 2 * f) + 1
Composed(length, plateau, proto, one) ==
    [k \in 1 .. length |-> LET s == Source(length, plateau, k - 1) IN IF s = 0 THEN one ELSE proto[s]]

(* ---------------------------- exact prototypes ---------------------------- *)
\* 2 * cos(2 * pi * i / m) for the numbers m, for which it is an integer
Cos2(i, m) ==
    LET k == i % m IN
    CASE m = 1 -> 2
      [] m = 2 -> IF k = 0 THEN 2 ELSE -2
      [] m = 3 -> IF k = 0 THEN 2 ELSE -1
      [] m = 4 -> IF k = 0 THEN 2 ELSE IF k = 2 THEN -2 ELSE 0
      [] m = 6 -> <<2, 1, -1, -2, -1, 1>>[k + 1]
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
\* is the window exactly representable with the length n?
IsExact(shape, n) ==
    CASE shape \in {"Rectangular", "Bartlett"} -> TRUE
      [] shape = "Hann" -> n <= 1 \/ n - 1 \in {1, 2, 3, 4, 6}
      \* the exponential window, that is halved from sample to sample
      [] shape = "Halving" -> n % 2 = 1 /\ n <= 23
      [] OTHER -> FALSE
Denominator(shape, n) ==
    CASE shape = "Bartlett" -> Max(n - 1, 1)
      [] shape = "Hann" -> 4
      [] shape = "Halving" -> Pow2(n \div 2)
      [] OTHER -> 1
\* the samples multiplied with the denominator
Prototype(shape, n) ==
    IF n = 1 THEN <<Denominator(shape, n)>>
    ELSE [k \in 1 .. n |->
          CASE shape = "Rectangular" -> 1
            [] shape = "Bartlett" -> 2 * Min(k - 1, n - k)
            [] shape = "Hann" -> 2 - Cos2(k - 1, n - 1)
            [] shape = "Halving" -> Pow2(Min(k - 1, n - k))]
Window(shape, length, plateau, symmetric) ==
    LET n == ProtoLength(length, plateau, symmetric)
    IN Composed(length, plateau, Prototype(shape, n), Denominator(shape, n))

(* ------------------------- block-wise processing -------------------------- *)
\* zero outside of the window
At(w, t) == IF t \in DOMAIN w THEN w[t] ELSE 0
\* The sum of the window and all of its repetitions with the distance step, that overlap with it, at the sample t
Overlapped(w, step, t) ==
    LET n == Len(w) \div step + 1 IN Sum([k \in 1 .. 2 * n + 1 |-> At(w, t + (k - n - 1) * step)])
OverlappedWindow(w, overlap) == [t \in DOMAIN w |-> Overlapped(w, Len(w) - overlap, t)]
Squared(w) == [t \in DOMAIN w |-> w[t] * w[t]]

\* The results are fractions. den is the denominator of the samples. A zero as denominator means, that the result is not specified.
ScalingFactor(w, den, overlap) ==
    IF overlap = Len(w) THEN <<0, 1>> ELSE <<Len(w) * den, Sum(OverlappedWindow(w, overlap))>>
Flatness(w, overlap) ==
    IF overlap = Len(w) THEN <<1, 1>> ELSE LET o == OverlappedWindow(w, overlap) IN <<MinOf(o), MaxOf(o)>>
AmplitudeFlatness(w, overlap) == Flatness(w, overlap)
PowerFlatness(w, overlap) == Flatness(Squared(w), overlap)
OverlapCorrelation(w, overlap) ==
    LET energy == Sum(Squared(w))
        step == Len(w) - overlap
    IN IF energy = 0 THEN <<1, 1>> ELSE <<Sum([t \in 1 .. overlap |-> w[t] * w[t + step]]), energy>>
OverlapStatistic(name, w, den, overlap) ==
    CASE name = "scaling_factor" -> ScalingFactor(w, den, overlap)
      [] name = "amplitude_flatness" -> AmplitudeFlatness(w, overlap)
      [] name = "power_flatness" -> PowerFlatness(w, overlap)
      [] name = "overlap_correlation" -> OverlapCorrelation(w, overlap)

(* ------------------------------- fractions -------------------------------- *)
\* floor(num / den * 10^digits) by long division
RECURSIVE Divide(_, _, _, _)
Divide(quotient, remainder, den, digits) ==
    IF digits = 0 THEN quotient
    ELSE Divide(quotient * 10 + (remainder * 10) \div den, (remainder * 10) % den, den, digits - 1)
Fixed(fraction, digits) == Divide(fraction[1] \div fraction[2], fraction[1] % fraction[2], fraction[2], digits)
Less(a, b) == a[1] * b[2] < b[1] * a[2]

(* ---------------------------- frequency domain ---------------------------- *)
\* c: cos(2 * pi * i / N) * 10000 for i in 0 .. N - 1 (the trigonometric functions are given), s: the sine, N: the length after zero padding
Turned(w, c, k) == Sum([t \in DOMAIN w |-> w[t] * c[(((t - 1) * k) % Len(c)) + 1]]) \div 10000
RECURSIVE Root(_, _)
Root(x, guess) == LET next == (guess + x \div guess) \div 2 IN IF next >= guess THEN guess ELSE Root(x, next)
IntegerRoot(x) == IF x = 0 THEN 0 ELSE Root(x, Max(Min(x, 46340), 1))
\* the magnitude of the spectrum of the zero padded window. The number of samples after padding is a multiple of four.
Magnitude(w, c, s, k) ==
    LET re == Turned(w, c, k)
        im == Turned(w, s, k)
    IN IntegerRoot(re * re + im * im)
\* the bin with the frequency, at which the magnitude falls below that of the first bin divided by the square root of two
IsBelow(m, reference) == 2 * m * m < reference * reference
Magnitudes(w, c, s) == [k \in 1 .. Len(c) \div 2 + 1 |-> Magnitude(w, c, s, k - 1)]
\* linear interpolation between the bins. Twice the result is the bandwidth. The result is multiplied with 1000
CrossingBin(m) ==
    LET j == CHOOSE j \in 2 .. Len(m) : IsBelow(m[j], m[1]) /\ \A i \in 2 .. j - 1 : ~ IsBelow(m[i], m[1])
        threshold == IntegerRoot((m[1] * m[1]) \div 2)
    IN (j - 2) * 1000 + ((m[j - 1] - threshold) * 1000) \div (m[j - 1] - m[j])
HasCrossing(m) == \E j \in 2 .. Len(m) : IsBelow(m[j], m[1])
=============================================================================
