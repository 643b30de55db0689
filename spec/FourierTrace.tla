---------------------------- MODULE FourierTrace ----------------------------
(* Validates recorded transforms: [events |-> <<[op, s, w, step, pad, exc, out], ...>>]. The recorded spectrums are given  *)
(* in the circular form of Fourier.tla.                                                                                 *)
EXTENDS TraceLib

VARIABLES l, i

F == INSTANCE Fourier

vars == <<l, i>>
T == Trace[l]
E == T.events[i]
Init == l = 1 /\ i = 1

EqualAll(o, x) == DOMAIN o = DOMAIN x /\ \A k \in DOMAIN x : F!Equal(o[k], x[k])
PadLabels(lab, n) == [c \in 1 .. n |-> IF c <= Len(lab) THEN lab[c] ELSE ""]

\* o: a recorded spectrum, nc: its number of channels, N: the period, y: the expected values
SpectrumIs(o, lab, nc, N, res, y) ==
    CASE o.k # "spectrum" -> "type"
      [] o.nc # nc -> "number of channels"
      [] o.len # F!Bins(N) -> "number of bins"
      [] o.res # res -> "resolution"
      [] o.lab # PadLabels(lab, nc) -> "labels"
      [] ~ o.edge -> "edges"
      [] ~ \A c \in 1 .. nc : EqualAll(o.y[c], y[c]) -> "samples"
      [] OTHER -> "ok"

SignalIs(o, lab, nc, len, off, sr, Y(_, _)) ==
    CASE o.k # "signal" -> "type"
      [] o.nc # nc -> "number of channels"
      [] o.len # len -> "length"
      [] o.off # off -> "offset"
      [] o.sr # sr -> "sampling rate"
      [] o.lab # lab -> "labels"
      [] ~ \A c \in 1 .. nc, k \in 1 .. len : o.ch[c][1][k] = <<Y(c, k), 0>> -> "samples"
      [] OTHER -> "ok"

ShortIs(o) ==
    LET L == E.w.len
        remainder == E.s.off - o.off * E.step
        y == F!Short(E.s, E.w, E.step, E.pad, remainder)
    IN CASE o.k # "spectrogram" -> "type"
         [] o.nc # E.s.nc -> "number of channels"
         [] o.nf # F!Bins(L) -> "number of bins"
         [] o.len # F!Columns(E.s, L, E.step, E.pad) -> "number of columns"
         [] o.res # F!RateDiv(E.s.sr, L) -> "resolution"
         [] o.sr # F!RateDiv(E.s.sr, E.step) -> "sampling rate"
         [] ~ F!IsNearest(o.off, E.s.off, E.step) -> "offset"
         [] o.lab # E.s.lab -> "labels"
         [] ~ o.edge -> "edges"
         [] ~ \A c \in 1 .. E.s.nc, k \in 1 .. o.len : EqualAll(o.y[c][k], y[c][k]) -> "samples"
         [] OTHER -> "ok"

InvertIs(o) ==
    LET s == E.s IN
    CASE o.k # "signal" -> "type"
      [] o.nc # s.nc \/ o.len # s.len -> "shape"
      [] o.off # -s.off -> "offset"
      [] o.sr # s.sr -> "sampling rate"
      [] o.lab # s.lab -> "labels"
      [] ~ \A c \in 1 .. s.nc : LET x == [k \in 1 .. s.len |-> F!X(s, c, k - 1)]
                              IN F!Invertible(x) => F!IsInverse(x, o.fixed[c], E.scale) -> "samples"
      [] OTHER -> "ok"

Verdict ==
    LET o == E.out
        s == E.s
        N == F!Period(s)
        v == CASE E.op = "full" -> SpectrumIs(o, s.lab, s.nc, N, F!FullResolution(s), F!Full(s))
               [] E.op = "block" -> SpectrumIs(o, s.lab, F!BlockChannels(s, E.w), E.w.len, F!RateDiv(s.sr, E.w.len),
                                               F!Blocks(s, E.w, E.step, E.pad))
               [] E.op = "short" -> ShortIs(o)
               \* the inverse of a spectrum, that has been computed from the samples of s
               [] E.op = "inverse" -> SignalIs(o, s.lab, s.nc, s.len, 0, s.sr, LAMBDA c, k : F!X(s, c, k - 1))
               [] E.op = "roundtrip" -> SignalIs(o, s.lab, s.nc, s.len, 0, s.sr, LAMBDA c, k : F!X(s, c, (k - 1 - s.off) % s.len))
               [] E.op = "short_roundtrip" ->
                    SignalIs(o, s.lab, s.nc, F!InverseLength(s, E.w.len, E.step, E.pad), s.off, s.sr, LAMBDA c, k : F!X(s, c, k - 1))
               [] E.op = "invert" -> InvertIs(o)
    IN IF E.exc # "" THEN E.op \o " raised " \o E.exc
       ELSE IF v = "ok" THEN "ok" ELSE E.op \o ": " \o v

Next ==
    /\ l <= Len(Trace)
    /\ LET v == Verdict IN
       /\ Report(l, i, v)
       /\ IF v = "ok" /\ i < Len(T.events) THEN i' = i + 1 /\ l' = l ELSE l' = l + 1 /\ i' = 1

Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter >= Len(Trace)
===============================================================================
