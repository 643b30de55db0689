--------------------------- MODULE GeneratorsTrace ---------------------------
(* Validates recorded generated data sets:                                    *)
(*   event [op, p, exc, out]                                                  *)
(*   p     the parameters, out: [k, nc, nf, len, sr, res, off, lab, x] with   *)
(*         the samples of the only channel                                    *)
EXTENDS TraceLib

VARIABLES l, i
G == INSTANCE Generators
vars == <<l, i>>
T == Trace[l]
E == T.events[i]
P == E.p
O == E.out
Init == l = 1 /\ i = 1

Metadata(k, length, rates, lab) ==
    CASE O.k # k -> "type"
      [] O.nc # 1 -> "number of channels"
      [] O.len # length -> "length"
      [] O.rates # rates -> "sampling rate or resolution"
      [] O.off # 0 -> "offset"
      [] O.lab # <<lab>> -> "label"
      [] OTHER -> "ok"
And(v, w) == IF v # "ok" THEN v ELSE w
Clause(holds, text) == IF holds THEN "ok" ELSE text

\* P.bits and P.length are zero or -1, if they have not been specified
MlsBits == IF P.bits > 0 THEN P.bits ELSE IF P.length >= 0 THEN G!BitsFor(P.length) ELSE G!DefaultBits
MlsLength == IF P.length >= 0 THEN P.length ELSE G!Period(MlsBits)
Mls ==
    LET m == Metadata("signal", MlsLength, <<P.rate>>, "MLS") IN
    CASE m # "ok" -> m
      [] E.bits # MlsBits -> "number of bits"
      [] E.period # G!Period(MlsBits) -> "period length"
      \* the number of periods times the length of a period is the length of the signal
      [] E.periods # MlsLength -> "number of periods"
      [] ~ G!IsBinary(O.x) -> "samples"
      [] ~ G!IsPeriodic(O.x, MlsBits) -> "period"
      [] ~ G!StatesAreDifferent(O.x, MlsBits) -> "states"
      [] MlsBits <= 4 /\ MlsLength <= 50 /\ ~ G!IsLinear(O.x, MlsBits) -> "linearity"
      \* other sequences with the same register and seed
      [] ~ \A y \in {E.others[k] : k \in DOMAIN E.others} : \A t \in DOMAIN y : t \in DOMAIN O.x => y[t] = O.x[t] -> "seed"
      [] OTHER -> "ok"

Noise ==
    LET starts == G!Nearest(P.start)
        stops == IF P.stop = -1 THEN {P.length} ELSE G!Nearest(P.stop)
        m == Metadata("spectrum", P.length, <<P.rate>>, "Noise")
    IN CASE m # "ok" -> m
         [] ~ \E a \in starts, b \in stops :
               /\ O.x = G!NoiseSpectrum(a, b, P.length)
               /\ (a < P.length /\ b >= a) => E.sequence = G!Min(b, P.length) - a -> "samples"
         [] OTHER -> "ok"

Fade ==
    LET m == Metadata("signal", P.length, <<P.rate>>, G!FadeLabel(P.rise, P.fall)) IN
    CASE m # "ok" -> m
      [] O.x # G!FadeSignal(P.length, P.rise, P.fall) -> "samples"
      [] OTHER -> "ok"

Constant ==
    LET m == Metadata(P.kind, P.length, P.rates, "Constant") IN
    CASE m # "ok" -> m
      [] O.nf # P.nf -> "number of frequencies"
      [] ~ \A k \in DOMAIN O.x : O.x[k] = P.value -> "samples"
      [] Len(O.x) # P.length * P.nf -> "number of samples"
      [] OTHER -> "ok"

Random ==
    LET m == Metadata("signal", P.length, <<P.rate>>, P.label) IN
    CASE m # "ok" -> m
      [] ~ \A t \in DOMAIN O.x : G!NoiseRange(P.distribution, P.parameters, O.x[t]) -> "range of the samples"
      [] E.again # O.x -> "seed"
      [] E.seed # P.seed -> "seed()"
      [] OTHER -> "ok"

\* noise with the default length: its mean value and its variance
Moments ==
    LET m == Metadata("signal", G!DefaultNoiseLength, <<P.rate>>, P.label) IN
    CASE m # "ok" -> m
      [] ~ G!MeanFits(P.distribution, P.parameters, E.mean) -> "mean value"
      [] ~ G!VarianceFits(P.distribution, P.parameters, E.variance) -> "variance"
      [] OTHER -> "ok"

Verdict ==
    IF E.exc # "" THEN E.op \o " raised " \o E.exc
    ELSE LET v == CASE E.op = "mls" -> Mls
                    [] E.op = "noise" -> Noise
                    [] E.op = "fade" -> Fade
                    [] E.op = "constant" -> Constant
                    [] E.op = "random" -> Random
                    [] E.op = "moments" -> Moments
         IN IF v = "ok" THEN v ELSE E.op \o ": " \o v

Next ==
    /\ l <= Len(Trace)
    /\ LET v == Verdict IN
       /\ Report(l, i, v)
       /\ IF v = "ok" /\ i < Len(T.events)
          THEN i' = i + 1 /\ l' = l
          ELSE l' = l + 1 /\ i' = 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter >= Len(Trace)
==============================================================================
