------------------------------- MODULE MovingMC -------------------------------
(* Enumerates short data sets with all shifts and padded lengths, checks laws *)
(* and prints the cases for the replay.                                       *)
EXTENDS Moving, TLC, Json, IOUtils

VARIABLES d, op

MaxLen == atoi(IOEnv.MAXLEN)

Mk(k, nc, nf, len, off) ==
    LET F(c, f, i) == <<100 * c + 10 * f + i, IF k = "signal" THEN 0 ELSE c + i>>
    IN [k |-> k, nc |-> nc, nf |-> nf, len |-> len, off |-> IF k = "spectrum" THEN 0 ELSE off,
        sr |-> IF k = "spectrum" THEN <<0, 1>> ELSE <<48, 1>>, res |-> IF k = "signal" THEN <<0, 1>> ELSE <<7, 1>>,
        lab |-> [c \in 1 .. nc |-> "label" \o ToString(c)], ch |-> Build(nc, nf, len, F)]

Data == {Mk(k, nc, nf, len, off) : k \in {"signal", "spectrum", "spectrogram"}, nc \in {1, 2}, nf \in {1, 2}, len \in 1 .. MaxLen, off \in {-2, 0, 3}}
Sane(x) == (x.k = "spectrogram" \/ x.nf = 1) /\ (x.k = "spectrum" => x.off = 0)

Ops(x) ==
    {[op |-> "pad", length |-> n, value |-> v, shift |-> <<>>, mode |-> ""] : n \in 0 .. (x.len + 2), v \in {<<0, 0>>, <<7, 0>>}}
    \union (IF x.k = "spectrum" THEN {}
            ELSE {[op |-> "shift", length |-> 0, value |-> Zero, shift |-> <<n>>, mode |-> m] : n \in (-x.len - 2) .. (x.len + 2), m \in ShiftModes}
                 \union {[op |-> "shift", length |-> 0, value |-> Zero, shift |-> <<>>, mode |-> "OFFSET"]})
    \union (IF x.k = "signal" THEN {[op |-> "reversed", length |-> 0, value |-> Zero, shift |-> <<>>, mode |-> ""]} ELSE {})

Init == d \in {x \in Data : Sane(x)} /\ op \in Ops(d)
Next == UNCHANGED <<d, op>>
Spec == Init /\ [][Next]_<<d, op>>

R == CASE op.op = "pad" -> Pad(d, op.length, op.value) [] op.op = "shift" -> Shift(d, op.shift, op.mode) [] OTHER -> Reverse(d)

\* the samples of a channel and bin as a set of <<sample>> without zeros (all samples of d are different and not zero)
Values(x, c, f) == {x.ch[c][f][i] : i \in 1 .. x.len}

Padding == op.op = "pad" => /\ R.len = op.length
                            /\ op.length >= d.len => Pad(R, d.len, Zero) = d
Shifting == op.op = "shift" /\ op.shift # <<>> =>
    /\ op.mode \in {"OFFSET", "CYCLE", "PAD"} => \A c \in 1 .. d.nc, f \in 1 .. d.nf : Values(d, c, f) \subseteq Values(R, c, f)
    /\ op.mode \in {"OFFSET", "CYCLE"} => Shift(R, <<-op.shift[1]>>, op.mode) = d
    /\ op.mode = "OFFSET" => \A c \in 1 .. d.nc, f \in 1 .. d.nf, t \in -8 .. 16 : At(R, c, f, t + op.shift[1]) = At(d, c, f, t)
    \* cropping a delayed signal equals cropping the padded one
    /\ op.mode = "CROP" /\ op.shift[1] >= 0 => R = Pad(Shift(d, op.shift, "PAD"), d.len, Zero)
Reversing == op.op = "reversed" => Reverse(R) = d /\ \A i \in 1 .. d.len : R.ch[1][1][i] = d.ch[1][1][d.len + 1 - i]

Inv == Padding /\ Shifting /\ Reversing /\ IsDataSet(R)

Constraint == PrintT("@CASE " \o ToJson([d |-> d, op |-> op]))
===============================================================================
