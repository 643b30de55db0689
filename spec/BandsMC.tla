------------------------------- MODULE BandsMC -------------------------------
(* Enumerates sets of support points in different orders and all combinations of modes, checks laws of the specified       *)
(* interpolation and prints the cases.                                                                                    *)
EXTENDS Bands, TLC, Json, IOUtils

VARIABLE case

MaxPoints == atoi(IOEnv.MAXPOINTS)
Xs == {1, 2, 4, 16}
Ys == [x \in Xs |-> CASE x = 1 -> 4 [] x = 2 -> 1 [] x = 4 -> 2 [] x = 16 -> 32]
Orders(S) == {s \in [1 .. Cardinality(S) -> S] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}

Init == \E S \in {S \in SUBSET Xs : Cardinality(S) <= MaxPoints} :
        \E order \in Orders(S), sign \in {1, -1} :
            /\ sign = -1 => 2 \in S
            /\ case = [pts |-> [i \in DOMAIN order |-> << <<order[i], 1>>, << <<(IF order[i] = 2 THEN sign ELSE 1) * Ys[order[i]], 1>>, RZero>> >>],
                       inter |-> "none", extra |-> "none"]
Next == case.inter = "none" /\ \E inter \in Modes, extra \in Modes : case' = [case EXCEPT !.inter = inter, !.extra = extra]
Spec == Init /\ [][Next]_case

Frequencies == {<<1, 2>>, <<1, 1>>, <<3, 2>>, <<2, 1>>, <<3, 1>>, <<4, 1>>, <<8, 1>>, <<10, 1>>, <<16, 1>>, <<32, 1>>}
pts == case.pts

AtSupportPoints == \A i \in DOMAIN pts : Value(case, pts[i][1]) = Exact(pts[i][2])
\* between the support points, no value is outside of the range of the neighbouring ones (except for the constants)
Lower(v, w) == IF RLess(v, w) THEN v ELSE w
Upper(v, w) == IF RLess(v, w) THEN w ELSE v
InRange ==
    \A x \in Frequencies :
        LET sorted == Sorted(pts)
            Inside == {i \in 1 .. Len(sorted) - 1 : RLess(sorted[i][1], x) /\ RLess(x, sorted[i + 1][1])}
            v == Value(case, x)
        IN (case.inter \notin {"ZERO", "ONE"} /\ v.t = "rat") =>
                \A i \in Inside : RLeq(Lower(sorted[i][2][1], sorted[i + 1][2][1]), v.v[1]) /\ RLeq(v.v[1], Upper(sorted[i][2][1], sorted[i + 1][2][1]))
\* the order of the support points does not matter
OrderIndependent == \A x \in Frequencies : Value(case, x) = Value([case EXCEPT !.pts = Sorted(pts)], x)
\* scaling commutes with the interpolation for all modes but the constant ones
Scaling == case.inter # "ONE" /\ case.extra # "ONE" =>
    \A x \in Frequencies : LET v == Value(MapPoints(case, LAMBDA y : CScale(y, <<2, 1>>)), x)
                               w == Pointwise(Value(case, x), "mul", <<2, 1>>)
                           IN w.t # "any" => v = w
Inv == case.inter # "none" => AtSupportPoints /\ InRange /\ OrderIndependent /\ Scaling

Constraint == case.inter = "none" \/ PrintT("@CASE " \o ToJson(case))
===============================================================================
