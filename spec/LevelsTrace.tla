----------------------------- MODULE LevelsTrace -----------------------------
(* Validates recorded levels, statistics and energy decays:                   *)
(*   event [op, what, s, q, pad, y, start, stop, exc, out]                    *)
(*   s     the data set: [nc, len, sr, off, lab, ch]                          *)
(*   out   [k, meta, values]                                                  *)
(* Recorded numbers have six decimal digits.                                  *)
EXTENDS TraceLib

VARIABLES l, i
L == INSTANCE Levels
vars == <<l, i>>
T == Trace[l]
E == T.events[i]
Init == l = 1 /\ i = 1

Meta(s) == [nc |-> s.nc, len |-> s.len, sr |-> s.sr, off |-> s.off, lab |-> s.lab]
\* a result, that is not defined, is arbitrary
Is(recorded, f) == f[2] = 0 \/ L!Equals(recorded, f)

StatisticIs ==
    LET channels == [c \in 1 .. E.s.nc |-> L!Statistic(E.what, E.s.ch[c])] IN
    CASE E.out.k # "array" -> "type"
      [] Len(E.out.values) # E.s.nc -> "number of values"
      [] ~ \A c \in 1 .. E.s.nc : Is(E.out.values[c], channels[c]) -> "value"
      [] OTHER -> "ok"
SingleIs ==
    CASE E.out.k # "float" -> "type"
      [] ~ Is(E.out.values[1], L!Statistic(E.what, L!Concatenated(E.s.ch))) -> "value"
      [] OTHER -> "ok"
SpectrumIs ==
    CASE E.out.k # "array" -> "type"
      [] Len(E.out.values) # E.s.nc -> "number of values"
      [] ~ \A c \in 1 .. E.s.nc : Is(E.out.values[c], L!SpectrumLevelSquare(E.s.ch[c])) -> "value"
      [] OTHER -> "ok"
SingleSpectrumIs ==
    CASE E.out.k # "float" -> "type"
      [] ~ Is(E.out.values[1], L!SpectrumsLevelSquare(E.s.ch)) -> "value"
      [] OTHER -> "ok"
WindowIs ==
    CASE E.out.k # "signal" -> "type"
      [] E.out.meta # Meta(E.s) -> "shape, sampling rate, offset or labels"
      [] ~ \A c \in 1 .. E.s.nc, t \in 1 .. E.s.len : Is(E.out.values[c][t], L!LevelVsTimeSquare(E.s.ch[c], t, E.q, E.pad)) -> "level"
      [] OTHER -> "ok"
DecayIs ==
    CASE E.out.k # "signal" -> "type"
      [] E.out.meta # Meta(E.s) -> "shape, sampling rate, offset or labels"
      [] ~ \A c \in 1 .. E.s.nc : E.out.values[c] = L!EnergyDecay(E.s.ch[c]) -> "energy"
      [] OTHER -> "ok"
\* y: the logarithms of the energies in each channel
ReverberationIs ==
    CASE E.out.k # "tuple" -> "type"
      [] Len(E.out.values) # E.s.nc -> "number of values"
      [] ~ \A c \in 1 .. E.s.nc : Is(E.out.values[c], L!Line(E.y[c], E.start, E.stop).m) -> "value"
      [] OTHER -> "ok"
ModelIs ==
    CASE E.out.k # "signal" -> "type"
      [] E.out.meta # Meta(E.s) -> "shape, sampling rate, offset or labels"
      [] ~ \A c \in 1 .. E.s.nc : LET line == L!Line(E.y[c], E.start, E.stop) IN
           \A t \in 1 .. E.s.len : Is(E.out.values[c][t], L!LineAt(line, t - 1)) -> "value"
      [] OTHER -> "ok"

Verdict ==
    IF E.exc # "" THEN E.op \o " raised " \o E.exc
    ELSE LET v == CASE E.op = "statistic" -> StatisticIs
                    [] E.op = "single" -> SingleIs
                    [] E.op = "spectrum" -> SpectrumIs
                    [] E.op = "spectrums" -> SingleSpectrumIs
                    [] E.op = "level_vs_time" -> WindowIs
                    [] E.op = "decay" -> DecayIs
                    [] E.op = "reverberation_time" -> ReverberationIs
                    [] E.op = "decay_model" -> ModelIs
         IN IF v = "ok" THEN v ELSE E.op \o " " \o E.what \o ": " \o v

Next ==
    /\ l <= Len(Trace)
    /\ LET v == Verdict IN
       /\ Report(l, i, v)
       /\ IF v = "ok" /\ i < Len(T.events)
          THEN i' = i + 1 /\ l' = l
          ELSE l' = l + 1 /\ i' = 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter >= Len(Trace)
==============================================================================
