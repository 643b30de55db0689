---------------------------- MODULE WindowsTrace ----------------------------
(* Validates recorded windows and their statistics.                           *)
(*   window       p: [shape, length, plateau, symmetric, rate, label], out:   *)
(*                the recorded window with samples times 1000000, proto: the  *)
(*                samples of the prototype, if it is not exactly known        *)
(*   statistic    w: samples as integers, den: their denominator, name,       *)
(*                overlap, value (times 1000000), tol                         *)
(*   recommended  af, oc: flatness and correlation for the overlaps 0, 1, ... *)
(*   scalloping, bandwidth   w, c, s: samples and trigonometric functions     *)
EXTENDS TraceLib

VARIABLES l, i
W == INSTANCE Windows
vars == <<l, i>>
T == Trace[l]
E == T.events[i]
P == E.p
O == E.out
Init == l = 1 /\ i = 1

Near(x, y, tol) == x - y <= tol /\ y - x <= tol

Samples ==
    LET n == W!ProtoLength(P.length, P.plateau, P.symmetric) IN
    IF W!IsExact(P.shape, n)
    THEN LET x == W!Window(P.shape, P.length, P.plateau, P.symmetric)
             d == W!Denominator(P.shape, n)
         IN \A t \in 1 .. P.length : Near(O.x[t], W!Fixed(<<x[t], d>>, 6), 2)
    ELSE LET x == W!Composed(P.length, P.plateau, E.proto, 1000000)
         IN Len(E.proto) = n /\ \A t \in 1 .. P.length : Near(O.x[t], x[t], 3)
Window ==
    CASE O.nc # 1 -> "number of channels"
      [] O.len # P.length -> "length"
      [] Len(O.x) # P.length -> "number of samples"
      [] O.rate # P.rate -> "sampling rate"
      [] O.off # 0 -> "offset"
      [] O.lab # <<P.label>> -> "label"
      [] O.symmetric # P.symmetric -> "symmetric()"
      [] O.plateau # P.plateau -> "plateau()"
      [] ~ Samples -> "samples"
      [] OTHER -> "ok"

Statistic ==
    LET f == W!OverlapStatistic(E.name, E.w, E.den, E.overlap) IN
    IF f[2] # 0 /\ ~ Near(E.value, IF f[2] < 0 THEN W!Fixed(<<-f[1], -f[2]>>, 6) ELSE W!Fixed(f, 6), E.tol) THEN E.name ELSE "ok"
\* maximum of the difference
Recommended ==
    LET d == [k \in DOMAIN E.af |-> E.af[k] - E.oc[k]] IN
    IF E.value + 1 \in DOMAIN d /\ \A k \in DOMAIN d : d[E.value + 1] >= d[k] - 4 THEN "ok" ELSE "overlap"
Scalloping ==
    LET m == [k \in 1 .. 2 |-> W!Magnitude(E.w, E.c, E.s, k - 1)] IN
    IF m[1] = 0 \/ Near(E.value * (m[1] \div 10), m[2] * 1000, 10 * m[1]) THEN "ok" ELSE "value"
Bandwidth ==
    LET m == W!Magnitudes(E.w, E.c, E.s) IN
    CASE ~ W!HasCrossing(m) -> "ok"
      [] Near(E.value, 2 * W!CrossingBin(m), 40) -> "ok"
      [] OTHER -> "value"

Verdict ==
    IF E.exc # "" THEN E.op \o " raised " \o E.exc
    ELSE LET v == CASE E.op = "window" -> Window
                    [] E.op = "statistic" -> Statistic
                    [] E.op = "recommended" -> Recommended
                    [] E.op = "scalloping" -> Scalloping
                    [] E.op = "bandwidth" -> Bandwidth
         IN IF v = "ok" THEN v ELSE E.op \o ": " \o v
Next ==
    /\ l <= Len(Trace)
    /\ LET v == Verdict IN
       /\ Report(l, i, v)
       /\ IF v = "ok" /\ i < Len(T.events)
          THEN i' = i + 1 /\ l' = l
          ELSE l' = l + 1 /\ i' = 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter >= Len(Trace)
==============================================================================
