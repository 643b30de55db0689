----------------------------- MODULE WindowsMC -----------------------------
(* All windows with short lengths, plateaus and overlaps. The cases are       *)
(* replayed on the code with all window functions.                            *)
EXTENDS Windows, TLC, Json, IOUtils

VARIABLES shape, length, plateau, symmetric, overlap
vars == <<shape, length, plateau, symmetric, overlap>>
MaxLength == atoi(IOEnv.MAXLENGTH)
Shapes == {"Rectangular", "Bartlett", "Hann", "Halving"}

Init ==
    /\ shape \in Shapes /\ symmetric \in BOOLEAN
    /\ length \in 1 .. MaxLength
    /\ plateau \in 0 .. length
    /\ overlap = 0
    /\ IsExact(shape, ProtoLength(length, plateau, symmetric))
Next == overlap < length /\ overlap' = overlap + 1 /\ UNCHANGED <<shape, length, plateau, symmetric>>
Spec == Init /\ [][Next]_vars

W == Window(shape, length, plateau, symmetric)
Den == Denominator(shape, ProtoLength(length, plateau, symmetric))
ShapeInv ==
    /\ Len(W) = length
    /\ \A t \in 1 .. length : 0 <= W[t] /\ W[t] <= Den
    \* the last sample is the first one or the second one
    /\ symmetric => \A t \in 1 .. length : W[t] = W[length + 1 - t]
    /\ ~ symmetric => \A t \in 2 .. length : W[t] = W[length + 2 - t]
    \* the plateau: at least the specified number of samples and at most one sample more than that
    /\ LET f == FadeLength(length, plateau) IN
       plateau > 0 => /\ \A t \in f + 1 .. length - f : W[t] = Den
                      /\ length - 2 * f \in {plateau, plateau + 1}
    \* rising before the centre, falling after it
    /\ \A t \in 1 .. length - 1 : IF 2 * t < length THEN W[t] <= W[t + 1] ELSE (2 * t > length => W[t] >= W[t + 1])
StatisticsInv ==
    /\ LET a == AmplitudeFlatness(W, overlap)
           p == PowerFlatness(W, overlap)
           c == OverlapCorrelation(W, overlap)
           s == ScalingFactor(W, Den, overlap)
       IN /\ \A f \in {a, p, c} : 0 <= f[1] /\ f[1] <= f[2]
          \* the scaling factor restores the amplitude, if the overlapping windows add up to a constant
          /\ (overlap < length /\ a[1] = a[2]) => s[1] * OverlappedWindow(W, overlap)[1] = s[2] * Den
    \* windows without plateaus, that do not repeat the first sample at the end, add up to a constant
    /\ (shape \in {"Bartlett", "Hann"} /\ ~ symmetric /\ plateau = 0 /\ length % 2 = 0 /\ overlap * 2 = length) =>
       /\ \A t \in 1 .. length : OverlappedWindow(W, overlap)[t] = Den
       /\ ScalingFactor(W, Den, overlap)[1] = ScalingFactor(W, Den, overlap)[2]
    \* the average overlap is the number of windows, that are added for each sample
    /\ (shape = "Rectangular" /\ overlap < length /\ length % (length - overlap) = 0) =>
       LET s == ScalingFactor(W, Den, overlap) IN s[1] * length = s[2] * (length - overlap)
Inv == ShapeInv /\ StatisticsInv
Constraint ==
    IF overlap = 0 /\ shape = "Bartlett" THEN PrintT("@WINDOW " \o ToJson([length |-> length, plateau |-> plateau, symmetric |-> symmetric])) ELSE TRUE
=============================================================================
