---------------------------- MODULE GeneratorsMC ----------------------------
(* A shift register with all selections of feedback bits, the construction of *)
(* Rudin-Shapiro sequences by doubling and all fades of short signals.        *)
EXTENDS Generators, TLC, Json, IOUtils

VARIABLES mode, case, register, out
vars == <<mode, case, register, out>>
MaxBits == atoi(IOEnv.MAXBITS)
MaxLength == atoi(IOEnv.MAXLENGTH)
MaxBins == atoi(IOEnv.MAXBINS)

Parity(S) == IF Cardinality(S) % 2 = 1 THEN 1 ELSE -1
Intervals(n) == {<<>>} \union {<<a, b>> : a \in 0 .. n, b \in 0 .. n}
Ordered(n) == {x \in Intervals(n) : x = <<>> \/ x[1] <= x[2]}

\* the construction of the code
RECURSIVE Doubled(_, _)
Doubled(s, n) ==
    IF Len(s) >= n THEN SubSeq(s, 1, n)
    ELSE LET h == Len(s) \div 2 IN Doubled(s \o SubSeq(s, 1, h) \o [k \in 1 .. h |-> - s[h + k]], n)

Init ==
    /\ out = <<>>
    /\ \/ /\ mode = "mls"
          /\ \E bits \in 2 .. MaxBits : \E taps \in SUBSET (1 .. bits) :
             /\ 1 \in taps /\ case = [bits |-> bits, taps |-> taps]
             /\ register = [k \in 1 .. bits |-> IF k = bits THEN 1 ELSE -1]
       \/ /\ mode = "fade" /\ register = <<>>
          /\ \E n \in 0 .. MaxLength : \E rise, fall \in Ordered(n) : case = [length |-> n, rise |-> rise, fall |-> fall]
       \/ /\ mode = "noise" /\ register = <<>>
          /\ \E n \in 1 .. MaxBins : \E start \in 0 .. 4 * (n + 1), stop \in 0 .. 4 * (n + 1) :
             case = [length |-> n, start |-> start, stop |-> stop]
Clock ==
    /\ mode = "mls" /\ Len(out) < 2 * Period(case.bits) + case.bits
    /\ out' = Append(out, register[1])
    /\ register' = Append(Tail(register), Parity({k \in case.taps : register[k] = 1}))
    /\ UNCHANGED <<mode, case>>
Next == Clock
Spec == Init /\ [][Next]_vars

Complete == Len(out) = 2 * Period(case.bits) + case.bits
MlsInv ==
    (Complete /\ StatesAreDifferent(out, case.bits)) =>
    LET P == Period(case.bits)
        seq == SubSeq(out, 1, P)
    IN /\ IsMls(out, case.bits)
       /\ IsLinear(out, case.bits)
       \* balance, auto correlation and run structure
       /\ Ones(seq) = Pow2(case.bits - 1)
       /\ \A s \in 1 .. P - 1 : AutoCorrelation(seq, s) = -1
       /\ \A k \in 1 .. case.bits - 2 : Runs(seq, k) = Pow2(case.bits - k - 1)
       /\ Runs(seq, case.bits - 1) = 1 /\ Runs(seq, case.bits) = 1
       /\ BitsFor(P) = case.bits
FadeInv ==
    LET x == FadeSignal(case.length, case.rise, case.fall) IN
    /\ \A t \in 0 .. case.length - 1 :
          (\A r \in {case.rise, case.fall} : r = <<>> \/ t < r[1] \/ t >= r[2]) => x[t + 1] \in {0, 1, 2}
    \* intervals, that do not overlap, result in samples between zero and one outside of the intervals
    /\ (case.rise = <<>> \/ case.fall = <<>> \/ case.rise[2] <= case.fall[1] \/ case.fall[2] <= case.rise[1]) =>
       \A t \in 0 .. case.length - 1 : (\A r \in {case.rise, case.fall} : r = <<>> \/ t < r[1] \/ t >= r[2]) => x[t + 1] \in {0, 1}
NoiseInv ==
    \A a \in Nearest(case.start), b \in Nearest(case.stop) :
    LET x == NoiseSpectrum(a, b, case.length)
        n == Min(b, case.length) - a
        seq == [k \in 1 .. Max(n, 0) |-> x[a + k]]
        even == {k \in 1 .. n : k % 2 = 1}
        sum(S) == Cardinality({k \in S : seq[k] = 1}) - Cardinality({k \in S : seq[k] = -1})
    IN n > 0 =>
       /\ seq = (IF n = 1 THEN <<1>> ELSE Doubled(<<1, 1>>, n))
       \* the crest factor at the times, at which it can be computed with integers
       /\ n \in {1, 2, 4, 8, 16, 32} =>
          /\ sum(1 .. n) * sum(1 .. n) <= 2 * n
          /\ (2 * sum(even) - sum(1 .. n)) * (2 * sum(even) - sum(1 .. n)) <= 2 * n

Inv == CASE mode = "mls" -> MlsInv [] mode = "fade" -> FadeInv [] mode = "noise" -> NoiseInv
Constraint ==
    CASE mode = "fade" -> PrintT("@FADE " \o ToJson(case))
      [] mode = "noise" -> PrintT("@NOISE " \o ToJson(case))
      [] OTHER -> TRUE
=============================================================================
