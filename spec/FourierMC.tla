------------------------------ MODULE FourierMC ------------------------------
(* Enumerates shapes, offsets, windows, overlaps and paddings, checks laws of *)
(* the specified transforms and prints the cases.                             *)
EXTENDS Fourier, TLC, Json, IOUtils

VARIABLE case

MaxLen == atoi(IOEnv.MAXLEN)
MaxWindow == atoi(IOEnv.MAXWINDOW)

Mk(nc, len, off) ==
    LET F(c, f, i) == <<((i * 5 + c * 7 + i * i) % 11) - 3, 0>>
    IN [k |-> "signal", nc |-> nc, nf |-> 1, len |-> len, off |-> off, sr |-> <<12, 1>>, res |-> <<0, 1>>,
        lab |-> [c \in 1 .. nc |-> "s" \o ToString(c)], ch |-> Build(nc, 1, len, F)]
MkWindow(nc, len, form) ==
    [nc |-> nc, len |-> len,
     ch |-> [c \in 1 .. nc |-> [n \in 1 .. len |-> CASE form = "one" -> 1
                                                     [] form = "hat" -> MinOf(n, len + 1 - n)
                                                     [] form = "ramp" -> n + c
                                                     [] form = "hole" -> IF n = 1 THEN 0 ELSE c]]]

Init == /\ case \in [nc : {1, 2}, len : 0 .. MaxLen, off : {0, 1, -2}, wc : {1, 2}, wl : 1 .. MaxWindow, form : {"one", "hat", "ramp", "hole"},
                     step : 1 .. MaxWindow, pad : BOOLEAN]
        /\ case.step <= case.wl
        /\ ~(case.form = "hole" /\ case.wl = 1)
        /\ (case.off = 1 => case.nc = 1) /\ (case.wc = 2 => case.form = "ramp")
Next == UNCHANGED case
Spec == Init /\ [][Next]_case

s == Mk(case.nc, case.len, case.off)
w == MkWindow(case.wc, case.wl, case.form)
step == case.step
Total(y) == SumInts([m \in DOMAIN y |-> y[m][1]])

\* the full transform neither loses nor duplicates samples
FullPermutes == case.len > 0 => \A c \in 1 .. s.nc, t \in 0 .. s.len - 1 : Full(s)[c][((t + s.off) % s.len) + 1] = Rat(X(s, c, t), 1)
\* with padding, the weight of a sample only depends on its position modulo the step
Periodic == \A c \in 1 .. w.nc, t \in 0 .. s.len - 1 : Weight(s, w, c, t, step, TRUE) = Weight(s, w, c, t % step, step, TRUE)
\* without it, it is not larger
LessWithoutPadding == \A c \in 1 .. w.nc, t \in 0 .. s.len - 1 : Weight(s, w, c, t, step, FALSE) <= Weight(s, w, c, t, step, TRUE)
\* the scaling: if the windows add up to a constant, the block wise transform is the folded signal
ConstantOverlapAdd ==
    LET y == Blocks(s, w, step, TRUE) IN
    \A c \in 1 .. w.nc : (s.len > 0 /\ \A t \in 0 .. step - 1 : Weight(s, w, c, t, step, TRUE) = Weight(s, w, c, 0, step, TRUE)) =>
        \A m \in 1 .. w.len : y[c][m][1] = y[c][m][2] * FoldedAt(s.len, s.off, w.len, m - 1, LAMBDA t : X(s, c, t))
\* the segments, that are used without padding can be counted
CountSegments == case.form = "one" /\ case.wc = 1 =>
    SumFromTo(0, s.len - 1, LAMBDA t : Weight(s, w, 1, t, step, FALSE)) = w.len * (IF s.len < w.len THEN 0 ELSE (s.len - w.len) \div step + 1)
\* the short time transform contains each sample as often as the windows cover it
ShortCovers ==
    LET y == Short(s, w, step, TRUE, 0) IN
    (case.wc \in {1, case.nc}) => \A c \in 1 .. s.nc : SumInts([k \in 1 .. Len(y[c]) |-> Total(y[c][k])])
        = SumFromTo(0, s.len - 1, LAMBDA t : X(s, c, t) * SumOverSet({j \in Segments(t + Half(w.len, TRUE), w.len, step) : j >= 0 /\ j < Len(y[c])},
                                                                      w, c, <<t + Half(w.len, TRUE), step>>))
InverseCoversAll == InverseLength(s, w.len, step, TRUE) >= s.len

Inv == FullPermutes /\ Periodic /\ LessWithoutPadding /\ ConstantOverlapAdd /\ CountSegments /\ ShortCovers /\ InverseCoversAll

Constraint == PrintT("@CASE " \o ToJson([s |-> s, w |-> w, overlap |-> w.len - step, pad |-> case.pad]))
===============================================================================
