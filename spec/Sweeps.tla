------------------------------- MODULE Sweeps -------------------------------
(* Waves and swept sines. Phases are integers in units of 1/Q of a period,    *)
(* sine[k + 1] is the sine of the phase k (the trigonometric function is      *)
(* given as a table).                                                         *)
EXTENDS Integers, Sequences

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Mod(x, q) == ((x % q) + q) % q

(* ---------------------------------- waves --------------------------------- *)
\* a: the phase, that passes per sample
WavePhase(a, p, n, Q) == Mod(a * n + p, Q)
\* the sign of the sine for phases, that are no zero crossings
IsCrossing(phase, Q) == phase = 0 \/ 2 * phase = Q
Square(phase, Q) == IF 2 * phase < Q THEN 1 ELSE -1

(* ------------------------------ linear sweeps ----------------------------- *)
(* The frequency (in 1/Q periods per sample) is a at the sample start and     *)
(* a + 2 * b * (stop - start) at the sample stop. It changes by 2 * b from    *)
(* sample to sample.                                                          *)
LinearPhase(s, n) == Mod(s.a * (n - s.start) + s.b * (n - s.start) * (n - s.start) + s.p, s.Q)
LinearFrequency(s, n) == s.a + 2 * s.b * (n - s.start)

(* --------------------------- exponential sweeps --------------------------- *)
(* The frequency is doubled after q samples. At the sample start + j * q, the *)
(* phase is A * (2^j - 1) + p. The start frequency is log(2) / q * A.         *)
(* For negative numbers j, A has to be a multiple of 2^-j.                    *)
HasExactPhase(s, n) == (n - s.start) % s.q = 0
Octave(s, n) == (n - s.start) \div s.q
RECURSIVE Pow2Mod(_, _)
Pow2Mod(j, Q) == IF j = 0 THEN 1 % Q ELSE (2 * Pow2Mod(j - 1, Q)) % Q
Scaled(A, j, Q) == IF j < 0 THEN A \div Pow2(-j) ELSE (A % Q) * Pow2Mod(j, Q)
ExponentialPhase(s, n) == Mod(Scaled(s.A, Octave(s, n), s.Q) - s.A + s.p, s.Q)
\* The frequency is 2^j times the start frequency

(* ----------------------------- inverse sweeps ----------------------------- *)
\* The sample of the sweep (which may lie outside of it), with which the inverse sweep is proportional at the sample n
Mirrored(s, n) == s.start + s.stop - n
InverseOffset(s) == -s.start - s.stop

(* ----------------------- harmonic impulse responses ----------------------- *)
(* The impulse response of the k-th harmonic precedes the linear one by       *)
(* log2(k) * q samples, which is given by its floor and its ceiling. It ends, *)
(* where the response of the preceding harmonic starts.                       *)
(* In signals without an offset, the times before zero are at the end.        *)
SegmentStart(origin, length, harmonic, ceiling) == IF harmonic = 1 THEN origin ELSE IF origin = 0 THEN length - ceiling ELSE origin - ceiling
SegmentStop(origin, length, harmonic, floor) ==
    IF harmonic = 1 THEN length
    ELSE IF origin = 0 THEN length - (IF harmonic = 2 THEN 0 ELSE floor)
    ELSE origin - (IF harmonic = 2 THEN 0 ELSE floor)
Segment(x, origin, harmonic, ceiling, floor) ==
    SubSeq(x, SegmentStart(origin, Len(x), harmonic, ceiling) + 1, SegmentStop(origin, Len(x), harmonic, floor))
\* does the impulse response contain the whole segment?
IsContained(length, origin, ceiling) == ceiling <= (IF origin = 0 THEN length ELSE origin)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
\* kernel: the periodic interpolation of a unit impulse, that is advanced by the missing fraction of a sample (times 10000)
Advanced(x, kernel) ==
    [n \in DOMAIN x |-> Sum([m \in DOMAIN x |-> x[m] * kernel[((n - m + Len(x)) % Len(x)) + 1]])]
Padded(x, length) == [n \in 1 .. length |-> IF n <= Len(x) THEN x[n] ELSE 0]
\* length: zero, if it is not specified. The result is multiplied with 10000
Harmonic(x, origin, harmonic, ceiling, floor, kernel, length, isspecified) ==
    LET segment == Segment(x, origin, harmonic, ceiling, floor)
        padded == IF isspecified THEN Padded(segment, Max(length, Len(segment))) ELSE segment
        advanced == IF harmonic = 1 THEN [n \in DOMAIN padded |-> 10000 * padded[n]] ELSE Advanced(padded, kernel)
    IN SubSeq(advanced, 1, IF isspecified THEN length ELSE Len(segment))
KernelLength(length, origin, harmonic, ceiling, floor, wanted, isspecified) ==
    LET n == SegmentStop(origin, length, harmonic, floor) - SegmentStart(origin, length, harmonic, ceiling)
    IN IF isspecified THEN Max(wanted, n) ELSE n

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Text(_)
Text(n) == IF n < 10 THEN Digits[n + 1] ELSE Text(n \div 10) \o Digits[(n % 10) + 1]
Counting(n) ==
    Text(n) \o (CASE n % 100 \in {11, 12, 13} -> "th"
                  [] n % 10 = 1 -> "st"
                  [] n % 10 = 2 -> "nd"
                  [] n % 10 = 3 -> "rd"
                  [] OTHER -> "th")
=============================================================================
