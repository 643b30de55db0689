----------------------------- MODULE SweepsTrace -----------------------------
(* Validates recorded waves, sweeps and harmonic impulse responses.           *)
(*   wave, linear, exponential   p: the parameters, out: metadata and the     *)
(*       samples x at the indices at. The samples are multiplied with 100000  *)
(*       and those of inverse sweeps with the inverse of their scaling factor *)
(*   oracle    samples of sweeps with arbitrary parameters and the values,    *)
(*       that follow from the definition                                      *)
(*   harmonic  x: the samples of the channels of an impulse response          *)
(*   peak      the convolution of a sweep with its inverse                    *)
EXTENDS TraceLib

VARIABLES l, i
S == INSTANCE Sweeps
vars == <<l, i>>
T == Trace[l]
E == T.events[i]
P == E.p
O == E.out
Init == l = 1 /\ i = 1

Near(x, y, tol) == x - y <= tol /\ y - x <= tol
Sine(phase) == E.sine[phase + 1]
Metadata(length, rate, off, labels) ==
    CASE O.k # "signal" -> "type"
      [] O.nc # Len(labels) -> "number of channels"
      [] O.len # length -> "length"
      [] O.rate # rate -> "sampling rate"
      [] O.off # off -> "offset"
      [] O.lab # labels -> "labels"
      [] OTHER -> "ok"

Wave ==
    LET m == Metadata(P.length, P.rate, 0, <<IF P.square THEN "Square wave" ELSE "Sine">>)
        phase(k) == S!WavePhase(P.a, P.p, O.at[k], P.Q)
    IN CASE m # "ok" -> m
         [] ~ \A k \in DOMAIN O.at :
               IF ~ P.square THEN Near(O.x[k], Sine(phase(k)), 2)
               \* (the sign at zero crossings depends on rounding errors)
               ELSE IF S!IsCrossing(phase(k), P.Q) THEN O.x[k] \in {-100000, 0, 100000}
               ELSE O.x[k] = 100000 * S!Square(phase(k), P.Q) -> "samples"
         [] E.periods # P.a * P.length -> "number of periods"
         [] OTHER -> "ok"

\* the direction determines the label
SweepLabel(first, last) == IF first <= last THEN "Sweep" ELSE "Inverse sweep"
Position(n) == IF P.inverse THEN S!Mirrored(P, n) ELSE n
Linear ==
    LET f(n) == S!LinearFrequency(P, Position(n))
        m == Metadata(P.length, P.rate, IF P.inverse THEN S!InverseOffset(P) ELSE 0, <<SweepLabel(f(0), f(P.length))>>)
    IN CASE m # "ok" -> m
         [] ~ \A k \in DOMAIN O.at : Near(O.x[k], Sine(S!LinearPhase(P, Position(O.at[k]))), 3) -> "samples"
         [] ~ \A k \in DOMAIN E.frequencies : Near(E.frequencies[k][2], 1000 * f(E.frequencies[k][1]), 2) -> "instantaneous frequency"
         [] ~ Near(E.minimum, 1000 * S!Min(f(0), f(P.length)), 2) -> "minimum frequency"
         [] ~ Near(E.maximum, 1000 * S!Max(f(0), f(P.length)), 2) -> "maximum frequency"
         [] OTHER -> "ok"

\* the frequency relative to the start frequency (times 1000)
Octaves(n) == LET j == S!Octave(P, Position(n)) IN IF j < 0 THEN 1000 \div S!Pow2(-j) ELSE 1000 * S!Pow2(j)
Exact(n) == S!HasExactPhase(P, Position(n))
Exponential ==
    LET m == Metadata(P.length, P.rate, IF P.inverse THEN S!InverseOffset(P) ELSE 0, <<IF P.inverse THEN "Inverse sweep" ELSE "Sweep">>) IN
    CASE m # "ok" -> m
      [] ~ \A k \in DOMAIN O.at :
            Exact(O.at[k]) =>
            LET j == S!Octave(P, Position(O.at[k]))
                y == Sine(S!ExponentialPhase(P, Position(O.at[k])))
            IN IF ~ P.inverse THEN Near(O.x[k], y, 3)
               ELSE IF j >= 0 THEN Near(O.x[k], S!Pow2(j) * y, 3 * S!Pow2(j))
               ELSE Near(O.x[k] * S!Pow2(-j), y, 3 + S!Pow2(-j)) -> "samples"
      [] ~ \A k \in DOMAIN E.frequencies :
            Exact(E.frequencies[k][1]) => Near(E.frequencies[k][2], Octaves(E.frequencies[k][1]), 2) -> "instantaneous frequency"
      [] Exact(0) /\ ~ Near(IF P.inverse THEN E.maximum ELSE E.minimum, Octaves(0), 2) -> "frequency at the beginning"
      [] Exact(P.length) /\ ~ Near(IF P.inverse THEN E.minimum ELSE E.maximum, Octaves(P.length), 2) -> "frequency at the end"
      [] OTHER -> "ok"

Oracle ==
    LET m == Metadata(P.length, P.rate, IF P.inverse THEN S!InverseOffset(P) ELSE 0, <<P.label>>) IN
    CASE m # "ok" -> m
      [] ~ \A k \in DOMAIN O.at : Near(O.x[k], E.expected[k], 10) -> "samples"
      [] ~ \A k \in DOMAIN E.frequencies : Near(E.frequencies[k][1], E.frequencies[k][2], 3) -> "frequencies"
      [] OTHER -> "ok"

HarmonicLabels == [c \in DOMAIN P.labels |-> P.labels[c] \o " (" \o S!Counting(P.harmonic) \o " harmonic)"]
Harmonic ==
    LET y(c) == S!Harmonic(P.x[c], P.origin, P.harmonic, P.ceiling, P.floor, E.kernel, P.length, P.specified)
        length == IF P.specified THEN P.length ELSE S!KernelLength(Len(P.x[1]), P.origin, P.harmonic, P.ceiling, P.floor, 0, FALSE)
        m == Metadata(length, P.rate, 0, HarmonicLabels)
    IN CASE m # "ok" -> m
         [] ~ \A c \in DOMAIN P.x : LET z == y(c) IN \A t \in 1 .. length : Near(O.xs[c][t], z[t], 500) -> "samples"
         [] E.after # P.x -> "the given impulse response has been modified"
         [] OTHER -> "ok"

\* the maximum of the convolution is at the time zero and the maximum is one
Peak ==
    LET zero == 1 - O.off IN
    CASE zero \notin DOMAIN O.x -> "offset"
      [] ~ \A k \in DOMAIN O.x : O.x[k] <= O.x[zero] /\ -O.x[k] <= O.x[zero] -> "position"
      [] ~ Near(O.x[zero], 1000, E.tol) -> "value"
      [] OTHER -> "ok"

Verdict ==
    IF E.exc # "" THEN E.op \o " raised " \o E.exc
    ELSE LET v == CASE E.op = "wave" -> Wave
                    [] E.op = "linear" -> Linear
                    [] E.op = "exponential" -> Exponential
                    [] E.op = "oracle" -> Oracle
                    [] E.op = "harmonic" -> Harmonic
                    [] E.op = "peak" -> Peak
         IN IF v = "ok" THEN v ELSE E.op \o ": " \o v
Next ==
    /\ l <= Len(Trace)
    /\ LET v == Verdict IN
       /\ Report(l, i, v)
       /\ IF v = "ok" /\ i < Len(T.events)
          THEN i' = i + 1 /\ l' = l
          ELSE l' = l + 1 /\ i' = 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter >= Len(Trace)
==============================================================================
