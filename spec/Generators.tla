----------------------------- MODULE Generators -----------------------------
(* The defining structure of generated data sets: maximum length sequences,   *)
(* Rudin-Shapiro noise, fades, constants and the ranges of random noise.      *)
EXTENDS Integers, Sequences, FiniteSets

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0

(* ------------------------- maximum length sequences ------------------------ *)
Period(bits) == Pow2(bits) - 1
DefaultBits == 16
\* the smallest register, whose period is not shorter than the signal. The shortest sequence has three samples.
BitsFor(length) == CHOOSE n \in 2 .. 31 : Period(n) >= length /\ (n = 2 \/ Period(n - 1) < length)

\* The state of the register at time t are the next samples of the sequence.
State(seq, bits, t) == SubSeq(seq, t, t + bits - 1)
RECURSIVE Number(_)
Number(window) == IF window = <<>> THEN 0 ELSE (IF window[Len(window)] > 0 THEN 1 ELSE 0) + 2 * Number(SubSeq(window, 1, Len(window) - 1))
IsBinary(seq) == \A t \in DOMAIN seq : seq[t] \in {-1, 1}
IsPeriodic(seq, bits) == \A t \in DOMAIN seq : t + Period(bits) \in DOMAIN seq => seq[t] = seq[t + Period(bits)]
\* The register passes through all states except for zero, before a state is repeated.
StatesOf(seq, bits) == [t \in 1 .. Min(Period(bits), Len(seq) - bits + 1) |-> Number(State(seq, bits, t))]
StatesAreDifferent(seq, bits) ==
    LET s == StatesOf(seq, bits) IN Cardinality({s[t] : t \in DOMAIN s}) = Len(s) /\ \A t \in DOMAIN s : s[t] # 0
\* The next sample is the parity of a fixed selection of the register's bits: the sum of two sections of the sequence, that are followed by
\* the next samples x and y, is followed by the product of x and y (in the representation with 1 and -1: 1 stands for a set bit).
Xor(x, y) == -(x * y)
Added(seq, bits, t, u) == [k \in 1 .. bits + 1 |-> Xor(seq[t + k - 1], seq[u + k - 1])]
IsLinear(seq, bits) ==
    LET n == Len(seq) - bits
        successor == [t \in 1 .. n |-> State(seq, bits + 1, t)]
        all == {successor[t] : t \in 1 .. n}
    IN \A t, u \in 1 .. n : successor[t] # successor[u] =>
       LET a == [k \in 1 .. bits + 1 |-> Xor(successor[t][k], successor[u][k])] IN
       \* (only if the sum has been recorded, too)
       (\E x \in all : SubSeq(x, 1, bits) = SubSeq(a, 1, bits)) => a \in all
IsMls(seq, bits) == IsBinary(seq) /\ IsPeriodic(seq, bits) /\ StatesAreDifferent(seq, bits)

\* the run structure of a full period (follows from the above)
Ones(seq) == Cardinality({t \in DOMAIN seq : seq[t] = 1})
AutoCorrelation(seq, shift) ==
    LET f[t \in 0 .. Len(seq)] == IF t = 0 THEN 0 ELSE f[t - 1] + seq[t] * seq[((t - 1 + shift) % Len(seq)) + 1] IN f[Len(seq)]
Runs(seq, k) ==     \* the number of cyclic runs with the length k
    LET at(t) == seq[((t - 1) % Len(seq)) + 1] IN
    Cardinality({t \in DOMAIN seq : at(t + Len(seq) - 1) # at(t) /\ (\A j \in 0 .. k - 1 : at(t + j) = at(t)) /\ at(t + k) # at(t)})

(* ------------------------------ Rudin-Shapiro ------------------------------ *)
RECURSIVE RudinShapiro(_)
RudinShapiro(n) ==
    IF n = 0 THEN 1 ELSE RudinShapiro(n \div 2) * (IF n % 4 = 3 THEN -1 ELSE 1)
\* start and stop are the bins, that are nearest to the frequencies
NoiseBin(k, start, stop, length) == IF k < start \/ k >= Min(stop, length) THEN 0 ELSE RudinShapiro(k - start)
NoiseSpectrum(start, stop, length) == [k \in 1 .. length |-> NoiseBin(k - 1, start, stop, length)]
\* the bin, that is nearest to q quarters of the resolution (the result for ties is arbitrary)
Nearest(q) == {k \in (q - 2) \div 4 .. (q + 2) \div 4 + 1 : 4 * k - q >= -2 /\ 4 * k - q <= 2}

(* ---------------------------------- fades ---------------------------------- *)
\* The function, that defines the fades, returns this for its sample i (starting with zero), if it is called with the length n.
Slope(n, i) == 100 * n + i + 2
Rise(t, a, b) == IF t < a THEN 0 ELSE IF t < b THEN Slope(2 * (b - a), t - a) ELSE 1
Fall(t, a, b) == IF t < a THEN 1 ELSE IF t < b THEN Slope(2 * (b - a), t - a + (b - a)) ELSE 0
\* intervals are empty sequences, if they are not given
InBeforeOut(rise, fall) == rise[1] < fall[1] \/ (rise[1] = rise[2] /\ rise[1] = fall[1] /\ fall[1] # fall[2])
FadeSample(t, rise, fall) ==
    CASE rise = <<>> /\ fall = <<>> -> 1
      [] fall = <<>> -> Rise(t, rise[1], rise[2])
      [] rise = <<>> -> Fall(t, fall[1], fall[2])
      [] OTHER -> IF InBeforeOut(rise, fall) THEN Rise(t, rise[1], rise[2]) * Fall(t, fall[1], fall[2])
                  ELSE Rise(t, rise[1], rise[2]) + Fall(t, fall[1], fall[2])
FadeSignal(length, rise, fall) == [t \in 1 .. length |-> FadeSample(t - 1, rise, fall)]
FadeLabel(rise, fall) ==
    CASE rise = <<>> /\ fall = <<>> -> "Fade"
      [] fall = <<>> -> "Fade in"
      [] rise = <<>> -> "Fade out"
      [] OTHER -> IF InBeforeOut(rise, fall) THEN "Fade in-out" ELSE "Fade out-in"

(* ---------------------------------- noise ---------------------------------- *)
\* The samples (in units of 1/1000, rounded down for continuous distributions) of the distributions. p: the parameters in the same unit
NoiseRange(distribution, p, x) ==
    CASE distribution = "UniformNoise" -> p[1] <= x /\ x <= p[2]
      [] distribution = "TriangularNoise" -> p[1] <= x /\ x <= p[2]
      [] distribution = "BetaNoise" -> 0 <= x /\ x <= 1000
      [] distribution = "BinomialNoise" -> x % 1000 = 0 /\ 0 <= x /\ x <= 1000 * p[2]
      [] distribution = "HypergeometricNoise" -> x % 1000 = 0 /\ Max(0, p[3] - p[2]) * 1000 <= x /\ x <= 1000 * Min(p[1], p[3])
      [] distribution = "GeometricNoise" -> x % 1000 = 0 /\ x >= 1000
      [] distribution = "LogarithmicNoise" -> x % 1000 = 0 /\ x >= 1000
      [] distribution = "PoissonNoise" -> x % 1000 = 0 /\ x >= 0
      [] distribution = "VonMisesNoise" -> -3142 <= x /\ x <= 3142
      [] distribution \in {"GammaNoise", "LomaxNoise", "WaldNoise", "ChiSquareNoise"} -> x >= 0
      [] OTHER -> TRUE
\* The mean values and variances of the distributions (both in units of 1/10000). p: the parameters in units of 1/8, except for the numbers of items
\* and draws of the discrete distributions, which are plain integers. A triangular distribution is symmetrical by default: p[3] is given twice as large.
LogarithmicMean == <<10698, 11587, 12766, 14427, 16992, 21640, 33663>>
LogarithmicVariance == <<781, 2024, 4129, 8040, 16439, 39731, 155984>>
Square(x) == x * x
NoiseMean(distribution, p) ==
    CASE distribution = "UniformNoise" -> (p[1] + p[2]) * 625
      [] distribution = "TriangularNoise" -> ((2 * p[1] + 2 * p[2] + p[3]) * 625) \div 3
      [] distribution \in {"GaussianNoise", "PoissonNoise", "LaplaceNoise", "LogisticNoise", "WaldNoise", "ChiSquareNoise", "VonMisesNoise"} -> p[1] * 1250
      [] distribution = "GeometricNoise" -> 80000 \div p[1]
      [] distribution = "LogarithmicNoise" -> LogarithmicMean[p[1]]
      [] distribution = "HypergeometricNoise" -> (10000 * p[3] * p[1]) \div (p[1] + p[2])
      [] distribution = "BinomialNoise" -> p[1] * p[2] * 1250
      [] distribution = "BetaNoise" -> (10000 * p[1]) \div (p[1] + p[2])
      [] distribution = "GammaNoise" -> (10000 * p[1] * p[2]) \div 64
      [] distribution = "LomaxNoise" -> 80000 \div (p[1] - 8)
NoiseVariance(distribution, p) ==
    CASE distribution = "UniformNoise" -> (Square(p[2] - p[1]) * 10000) \div 768
      [] distribution = "TriangularNoise" ->
            ((4 * Square(p[1]) + 4 * Square(p[2]) + Square(p[3]) - 4 * p[1] * p[2] - 2 * p[1] * p[3] - 2 * p[2] * p[3]) * 10000) \div (18 * 256)
      [] distribution = "GaussianNoise" -> (Square(p[2]) * 10000) \div 64
      [] distribution = "PoissonNoise" -> p[1] * 1250
      [] distribution = "LaplaceNoise" -> (Square(p[2]) * 20000) \div 64
      [] distribution = "LogisticNoise" -> (Square(p[2]) * 32899) \div 64
      [] distribution = "WaldNoise" -> ((p[1] * p[1] * p[1]) * 1250) \div (8 * p[2])
      [] distribution = "ChiSquareNoise" -> p[1] * 2500
      [] distribution = "VonMisesNoise" -> 85000 \div p[2]      \* (approximately, for distributions, that are narrow enough not to be wrapped around)
      [] distribution = "GeometricNoise" -> (80000 * (8 - p[1])) \div Square(p[1])
      [] distribution = "LogarithmicNoise" -> LogarithmicVariance[p[1]]
      [] distribution = "HypergeometricNoise" ->
            LET t == p[1] + p[2] IN IF t = 1 THEN 0 ELSE (10000 * p[3] * p[1] * p[2] * (t - p[3])) \div (t * t * (t - 1))
      [] distribution = "BinomialNoise" -> (10000 * p[2] * p[1] * (8 - p[1])) \div 64
      [] distribution = "BetaNoise" -> ((80000 * p[1] * p[2]) \div Square(p[1] + p[2])) \div (p[1] + p[2] + 8)
      [] distribution = "GammaNoise" -> (10000 * p[1] * Square(p[2])) \div 512
      [] distribution = "LomaxNoise" -> ((640000 \div Square(p[1] - 8)) * p[1]) \div (p[1] - 16)
VarianceIsExact(distribution) == distribution # "LomaxNoise"

\* The moments of DefaultNoiseLength samples: six standard deviations for the mean value, an eighth for the variance
DefaultNoiseLength == 65536
MeanFits(distribution, p, m) ==
    LET d == m - NoiseMean(distribution, p)
        a == Max(0, Max(d, -d) - 2)
    IN a < 46000 /\ a * a <= 6 * NoiseVariance(distribution, p) + 6
VarianceFits(distribution, p, v) ==
    LET e == NoiseVariance(distribution, p)
        d == v - e
    IN VarianceIsExact(distribution) => (d < 100000000 /\ Max(d, -d) * 8 <= e + 32)
=============================================================================
