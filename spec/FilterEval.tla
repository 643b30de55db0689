------------------------------ MODULE FilterEval ------------------------------
(* Filters evaluate their channels independently of each other (C13).         *)
(*                                                                            *)
(* State:   memo   the values of each transfer function, that have been       *)
(*                 recorded when it was the only channel of a filter          *)
(* A trace is [points, terms, events] with the events                         *)
(*   single     term                  a filter with this term only            *)
(*   multi      channels (indices of terms), how                              *)
(*   spectrum   channels, x, out      filter * spectrum, x.val[c][k]          *)
(*   spectrogram  channels, x, out    filter * spectrogram, x.val[c][k][t]    *)
(*   signal     channels, x, out      filter * signal with the offset x.off   *)
EXTENDS TraceLib, Terms

VARIABLES l, i, memo

T == Trace[l]
E == T.events[i]
vars == <<l, i, memo>>

Max(a, b) == IF a >= b THEN a ELSE b
Near(x, y) == x = y \/ (Abs(x[1] - y[1]) <= 2 /\ Abs(x[2] - y[2]) <= 2)
Expected(term) == Values(T.terms[term], T.points)

\* exact: the recorded fractions, raw: the recorded fixed point values
CheckChannel(out, c, term) ==
    /\ \A k \in 1 .. Len(T.points) : Matches(out.val[c][k], Expected(term)[k])
    /\ term \in DOMAIN memo => \A k \in 1 .. Len(T.points) : Near(out.raw[c][k], memo[term][k])

Pick(x, c) == IF Len(x) = 1 THEN x[1] ELSE x[c]
Count(channels, x) == Max(Len(channels), Len(x))
Filtered(c) == [k \in 1 .. Len(T.points) |-> QMul(Expected(Pick(E.channels, c))[k], <<Pick(E.x.val, c)[k][1], Pick(E.x.val, c)[k][2], 1>>)]

\* the discrete Fourier transform of a signal of the length 1, 2 or 4 with an offset, for the bins 0 .. length / 2
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN <<0, 0, 1>> ELSE QAdd(Head(s), Sum(Tail(s)))
Quarter(n, len) == n * (4 \div len)
Dft(x, len, off, k) == Sum([n \in 1 .. len |-> QMul(<<x[n][1], 0, 1>>, Turn(-Quarter(k * (n - 1 + off), len)))])
\* one sample of the inverse transform of the bins (real signals)
RealOf(v) == IF v[3] <= 0 THEN v ELSE Norm(v[1], 0, v[3])
Inverse(bins, len, n) ==
    LET Part(k) == IF k = 0 \/ 2 * k = len THEN RealOf(QMul(RealOf(bins[k + 1]), Turn(Quarter(k * n, len))))
                   ELSE QMul(<<2, 0, 1>>, RealOf(QMul(bins[k + 1], Turn(Quarter(k * n, len)))))
    IN QDiv(Sum([k \in 1 .. (len \div 2) + 1 |-> Part(k - 1)]), <<len, 0, 1>>)
\* zeros by definition are zeros in sums
Plain(v) == IF IsZ(v) THEN <<0, 0, 1>> ELSE v
FilteredSignal(c) ==
    LET x == Pick(E.x.val, c)
        len == Len(x)
        bins == [k \in 1 .. (len \div 2) + 1 |-> Plain(QMul(Expected(Pick(E.channels, c))[k], Dft(x, len, E.x.off, k - 1)))]
    IN [n \in 1 .. len |-> Inverse(bins, len, n - 1)]

Verdict ==
    IF E.exc # "" THEN E.op \o " raised " \o E.exc
    ELSE CASE E.op = "single" -> IF Len(E.out.val) = 1 /\ CheckChannel(E.out, 1, E.channels[1]) THEN "ok" ELSE "the value of a single channel"
      [] E.op = "multi" ->
            IF Len(E.out.val) # Len(E.channels) THEN "number of channels (" \o E.how \o ")"
            ELSE IF \A c \in 1 .. Len(E.channels) : CheckChannel(E.out, c, E.channels[c]) THEN "ok"
            ELSE "the value of a channel depends on the other ones (" \o E.how \o ")"
      [] E.op = "spectrum" ->
            IF Len(E.out.val) # Count(E.channels, E.x.val) THEN "number of channels of a filtered spectrum"
            ELSE IF \A c \in 1 .. Len(E.out.val), k \in 1 .. Len(T.points) : Matches(E.out.val[c][k], Filtered(c)[k]) THEN "ok" ELSE "filtered spectrum"
      [] E.op = "spectrogram" ->
            IF Len(E.out.val) # Count(E.channels, E.x.val) THEN "number of channels of a filtered spectrogram"
            ELSE IF \A c \in 1 .. Len(E.out.val), k \in 1 .. Len(T.points) :
                        LET v == Expected(Pick(E.channels, c))[k] IN
                        /\ Len(E.out.val[c][k]) = Len(Pick(E.x.val, c)[k])
                        /\ \A t \in 1 .. Len(E.out.val[c][k]) :
                            Matches(E.out.val[c][k][t], QMul(v, <<Pick(E.x.val, c)[k][t][1], Pick(E.x.val, c)[k][t][2], 1>>))
            THEN "ok" ELSE "filtered spectrogram"
      [] E.op = "signal" ->
            IF Len(E.out.val) # Count(E.channels, E.x.val) THEN "number of channels of a filtered signal"
            ELSE IF \A c \in 1 .. Len(E.out.val) :
                        /\ Len(E.out.val[c]) = Len(Pick(E.x.val, c))
                        /\ \A n \in 1 .. Len(E.out.val[c]) : Matches(E.out.val[c][n], FilteredSignal(c)[n])
            THEN "ok" ELSE "filtered signal"

Init == l = 1 /\ i = 1 /\ memo = << >>
NextTrace == l' = l + 1 /\ i' = 1 /\ memo' = << >>
Next ==
    /\ l <= Len(Trace)
    /\ IF i > Len(T.events) THEN NextTrace
       ELSE LET v == Verdict IN
            /\ Report(l, i, v)
            /\ IF v = "ok" THEN /\ memo' = IF E.op = "single" THEN (E.channels[1] :> E.out.raw[1]) @@ memo ELSE memo
                                /\ i' = i + 1 /\ l' = l
               ELSE NextTrace
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter >= Len(Trace)
===============================================================================
