--------------------------- MODULE PredefinedTrace ---------------------------
(* Validates recorded transfer functions of predefined filters.               *)
(*   rolloff    values: sequence of [p, q, exact, square, re, im, xre, xim]:  *)
(*       the squared magnitude (times 1000000) and the complex value (times   *)
(*       10000) at p / q times the cutoff frequency, the expected value from  *)
(*       the poles and zeros of the definition. exact: the squared magnitude  *)
(*       can be computed exactly                                              *)
(*   linear     delays and derivatives: values and what they have to be       *)
(*   weighting  frequency weightings                                          *)
EXTENDS TraceLib

VARIABLES l, i
F == INSTANCE Predefined
vars == <<l, i>>
T == Trace[l]
E == T.events[i]
P == E.p
O == E.out
Init == l = 1 /\ i = 1

Near(x, y, tol) == x - y <= tol /\ y - x <= tol
Rolloff ==
    CASE O.nc # 1 -> "number of channels"
      [] O.lab # <<P.label>> -> "label"
      [] O.cutoff # P.cutoff -> "cutoff_frequency()"
      [] O.order # P.n -> "order()"
      [] O.highpass # P.highpass -> "is_highpass()"
      [] O.ripple # P.ripple -> "ripple()"
      [] ~ \A v \in {E.values[k] : k \in DOMAIN E.values} :
            v.exact => Near(v.square, F!Fixed(F!SquaredMagnitude(P.type, P.n, P.e, P.highpass, v.p, v.q), 6), 10) -> "magnitude"
      [] ~ \A v \in {E.values[k] : k \in DOMAIN E.values} : Near(v.re, v.xre, 5) /\ Near(v.im, v.xim, 5) -> "phase"
      [] OTHER -> "ok"
Linear ==
    CASE O.lab # <<P.label>> -> "label"
      [] O.nc # 1 -> "number of channels"
      [] ~ \A k \in DOMAIN E.values : \A j \in 1 .. 2 : Near(E.values[k][j], E.expected[k][j], 3) -> "values"
      [] OTHER -> "ok"
\* The values are relative to the product of the defining zeros and poles. There has to be one common factor, so that the magnitude at 1kHz is one.
Weighting ==
    CASE O.lab # <<P.label>> -> "label"
      [] O.nc # 1 -> "number of channels"
      [] E.zero # <<0, 0>> /\ P.label # "U-weighting" -> "value at 0Hz"
      [] ~ Near(E.reference, 10000, 3) -> "magnitude at the reference frequency"
      [] ~ \A k \in DOMAIN E.values : \A j \in 1 .. 2 : Near(E.values[k][j], E.values[1][j], 10) -> "values"
      [] OTHER -> "ok"

Verdict ==
    IF E.exc # "" THEN E.op \o " raised " \o E.exc
    ELSE LET v == CASE E.op = "rolloff" -> Rolloff
                    [] E.op = "linear" -> Linear
                    [] E.op = "weighting" -> Weighting
         IN IF v = "ok" THEN v ELSE E.op \o ": " \o v
Next ==
    /\ l <= Len(Trace)
    /\ LET v == Verdict IN
       /\ Report(l, i, v)
       /\ IF v = "ok" /\ i < Len(T.events)
          THEN i' = i + 1 /\ l' = l
          ELSE l' = l + 1 /\ i' = 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter >= Len(Trace)
==============================================================================
