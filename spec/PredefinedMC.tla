---------------------------- MODULE PredefinedMC ----------------------------
(* All small orders, types and directions. The cases are replayed on the code.*)
EXTENDS Predefined, TLC, Json, IOUtils

VARIABLES type, n, e, highpass, p, q
vars == <<type, n, e, highpass, p, q>>
MaxOrder == atoi(IOEnv.MAXORDER)
Ratios == {<<0, 1>>, <<1, 4>>, <<1, 2>>, <<2, 3>>, <<1, 1>>, <<3, 2>>, <<2, 1>>, <<4, 1>>}
Ripples == {<<1, 1>>, <<1, 4>>, <<3, 1>>, <<8, 1>>}
\* the numbers have to fit into 32 bit integers
Large(t, k, r) ==
    LET m == IF r[1] > r[2] THEN r[1] ELSE r[2] IN
    CASE t = "Butterworth" -> m >= 3 /\ k > 7
      [] t = "Bessel" -> k > 4 \/ (m >= 3 /\ k > 2) \/ (m >= 2 /\ k > 3)
      [] OTHER -> (m = 2 /\ k > 5) \/ (m > 2 /\ k > 3)
Init ==
    /\ type \in {"Butterworth", "Chebyshev1", "Chebyshev2", "Bessel"}
    /\ n \in 1 .. (IF type = "Bessel" THEN Min(4, MaxOrder) ELSE MaxOrder) /\ highpass \in BOOLEAN
    /\ e \in (IF type \in {"Butterworth", "Bessel"} THEN {<<1, 1>>} ELSE Ripples)
    /\ p = 0 /\ q = 1
Next ==
    /\ <<p, q>> = <<0, 1>>
    /\ \E r \in Ratios : ~ Large(type, n, r) /\ p' = r[1] /\ q' = r[2]
    /\ UNCHANGED <<type, n, e, highpass>>
Spec == Init /\ [][Next]_vars

M == SquaredMagnitude(type, n, e, highpass, p, q)
Equal(a, b) == a[1] * b[2] = b[1] * a[2]
Inv ==
    /\ M[1] >= 0 /\ M[2] > 0
    /\ M[1] <= M[2] \/ (type = "Chebyshev1" /\ Even(n))
    \* the magnitude at the cutoff frequency
    /\ (p = 1 /\ q = 1) =>
       CASE type = "Butterworth" -> M = <<1, 2>>
         [] type = "Chebyshev1" -> Equal(M, IF Even(n) THEN <<1, 1>> ELSE <<e[2], e[1] + e[2]>>)
         [] type = "Chebyshev2" -> Equal(M, <<e[2], e[1] + e[2]>>)
         [] OTHER -> n = 1 => M = <<1, 2>>
    \* the pass band and the stop band
    /\ (~ highpass /\ p = 0) => Equal(M, <<1, 1>>)
    /\ (type = "Chebyshev1" /\ (IF highpass THEN q < p ELSE p < q)) =>
       IF Even(n) THEN Equal(M, <<1, 1>>) \/ M[1] > M[2] ELSE M[1] * (e[1] + e[2]) >= M[2] * e[2]
    /\ (type = "Chebyshev2" /\ (IF highpass THEN q > p ELSE p > q)) => M[1] * (e[1] + e[2]) <= M[2] * e[2]
    /\ (n = 1 /\ type \in {"Butterworth", "Bessel"}) => Equal(M, SquaredMagnitude("Butterworth", 1, e, highpass, p, q))
Constraint == IF p = 0 THEN PrintT("@FILTER " \o ToJson([type |-> type, n |-> n, e |-> e, highpass |-> highpass])) ELSE TRUE
=============================================================================
