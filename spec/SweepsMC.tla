------------------------------ MODULE SweepsMC ------------------------------
(* All linear and exponential sweeps with small integer parameters and all    *)
(* harmonic segments of small impulse responses.                              *)
EXTENDS Sweeps, TLC, Json, IOUtils

VARIABLES mode, s, n
vars == <<mode, s, n>>
MaxLength == atoi(IOEnv.MAXLENGTH)
Q == 24

Init ==
    /\ n = 0
    /\ \/ /\ mode = "linear"
          /\ \E length \in 2 .. MaxLength : \E start \in 0 .. length - 1 : \E stop \in start + 1 .. length :
             \E a \in {0, 3, 8}, b \in {1, 2, -1}, p \in {0, 6} :
             s = [a |-> a, b |-> b, p |-> p, start |-> start, stop |-> stop, length |-> length, Q |-> Q]
       \/ /\ mode = "exponential"
          /\ \E q \in 1 .. 3 : \E start \in 0 .. 4 : \E octaves \in 1 .. 4 : \E tail \in 0 .. 4 : \E p \in {0, 6} :
             s = [A |-> 16, p |-> p, q |-> q, start |-> start, stop |-> start + octaves * q, length |-> start + octaves * q + tail, Q |-> Q]
       \/ /\ mode = "harmonic"
          /\ \E length \in 1 .. MaxLength + 2 : \E origin \in 0 .. length - 1 : \E q \in 1 .. 4 :
             s = [length |-> length, origin |-> origin, q |-> q]
Last == IF mode = "harmonic" THEN 0 ELSE s.length - 1
Next == n < Last /\ n' = n + 1 /\ UNCHANGED <<mode, s>>
Spec == Init /\ [][Next]_vars

\* the phase, that passes from sample to sample, is the mean of the frequencies at the samples
LinearInv ==
    /\ 2 * Mod(LinearPhase(s, n + 1) - LinearPhase(s, n), s.Q) = Mod(LinearFrequency(s, n) + LinearFrequency(s, n + 1), 2 * s.Q)
    /\ LinearPhase(s, s.start) = s.p
    /\ LinearFrequency(s, s.stop) - s.a = 2 * s.b * (s.stop - s.start)
    /\ Mirrored(s, Mirrored(s, n)) = n
    /\ n + Mirrored(s, n) + InverseOffset(s) = 0
ExponentialInv ==
    HasExactPhase(s, n) =>
    /\ HasExactPhase(s, n + s.q)
    /\ Octave(s, n) >= 0 => Mod(ExponentialPhase(s, n + s.q) - s.p + s.A, s.Q) = Mod(2 * (ExponentialPhase(s, n) - s.p + s.A), s.Q)
    /\ ExponentialPhase(s, s.start) = Mod(s.p, s.Q)
\* the segments of the harmonics 1, 2, 4, 8 (with delays, that are multiples of q) are adjacent, the harmonics 3, 5, 6, 7 lie between them
HarmonicInv ==
    LET delay(k) == CASE k = 2 -> s.q [] k = 4 -> 2 * s.q [] k = 8 -> 3 * s.q
        begin(k) == SegmentStart(s.origin, s.length, k, delay(k))
        end(k) == SegmentStop(s.origin, s.length, k, IF k = 2 THEN 0 ELSE delay(k \div 2))
    IN /\ SegmentStart(s.origin, s.length, 1, 0) = s.origin /\ SegmentStop(s.origin, s.length, 1, 0) = s.length
       /\ IsContained(s.length, s.origin, 3 * s.q) =>
          /\ begin(8) >= 0 /\ end(8) = begin(4) /\ end(4) = begin(2)
          /\ end(2) = (IF s.origin = 0 THEN s.length ELSE s.origin)
Inv == CASE mode = "linear" -> LinearInv [] mode = "exponential" -> ExponentialInv [] mode = "harmonic" -> HarmonicInv
Constraint ==
    IF n # 0 THEN TRUE
    ELSE CASE mode = "linear" -> PrintT("@LINEAR " \o ToJson(s))
           [] mode = "exponential" -> PrintT("@EXPONENTIAL " \o ToJson(s))
           [] mode = "harmonic" -> PrintT("@HARMONIC " \o ToJson(s))
=============================================================================
