---------------------------- MODULE ConvolutionMC ----------------------------
(* Enumerates lengths, channel counts, offsets and modes, checks laws of the  *)
(* specified convolution and correlation and prints the cases.                *)
EXTENDS Convolution, TLC, Json, IOUtils

VARIABLE case

MaxLen == atoi(IOEnv.MAXLEN)

Mk(nc, len, off, seed) ==
    LET F(c, f, i) == <<((i * 7 + c * 11 + seed * 5) % 13) - 5, 0>>
    IN [k |-> "signal", nc |-> nc, nf |-> 1, len |-> len, off |-> off, sr |-> <<40 + seed, 1>>, res |-> <<0, 1>>,
        lab |-> [c \in 1 .. nc |-> "s" \o ToString(seed) \o ToString(c)], ch |-> Build(nc, 1, len, F)]

Init == /\ case \in [ac : {1, 2, 3}, bc : {1, 2, 3}, al : 1 .. MaxLen, bl : 1 .. MaxLen, ao : {0, 2, -3}, bo : {0, -1, 4}]
        /\ (case.ac # 2 \/ case.bc # 2) => (case.ao # 0 /\ case.bo # 0 /\ case.ao + case.bo # 6)
Next == UNCHANGED case
Spec == Init /\ [][Next]_case

a == Mk(case.ac, case.al, case.ao, 1)
b == Mk(case.bc, case.bl, case.bo, 2)
L == <<"L">>
Conv(m) == Convolve(a, b, m, L)
Corr(m) == Correlate(a, b, m, L)

\* the restriction of a full result to another time span
Within(x, full) == x.nc = full.nc /\ \A c \in 1 .. x.nc, t \in x.off .. Stop(x) - 1 : At(x, c, 1, t) = At(full, c, 1, t)

Modes == \A R \in {[m \in ConvolutionModes |-> Conv(m)], [m \in ConvolutionModes |-> Corr(m)]} :
    /\ Within(R["SAME"], R["FULL"]) /\ Within(R["VALID"], R["FULL"])
    /\ R["SPECTRUM_PADDED"] = R["FULL"]
    /\ R["SAME"].off <= R["VALID"].off /\ Stop(R["VALID"]) <= Stop(R["SAME"])
    /\ \A m \in ConvolutionModes : IsDataSet(R[m])
Commutative == \A m \in ConvolutionModes : LET x == Conv(m) y == Convolve(b, a, m, L) IN x.ch = y.ch /\ x.off = y.off
\* exchanging the operands of a correlation mirrors it in time
Mirrored == LET x == Corr("FULL")
                y == Correlate(b, a, "FULL", L)
            IN \A c \in 1 .. x.nc, t \in x.off .. Stop(x) - 1 : At(x, c, 1, t) = At(y, c, 1, -t)
\* the definition as a sum over points in time
ByTime == LET x == Conv("FULL") IN
    \A c \in 1 .. x.nc, t \in x.off .. Stop(x) - 1 :
        At(x, c, 1, t)[1] = SumOver(a.len, LAMBDA i : At(a, IF a.nc = 1 THEN 1 ELSE c, 1, a.off + i)[1]
                                                    * At(b, IF b.nc = 1 THEN 1 ELSE c, 1, t - a.off - i)[1])
\* the periodic continuation of the circular result contains all samples of the linear one
SumPreserved == case.al % 2 = 0 /\ case.al = case.bl =>
    \A c \in 1 .. Conv("FULL").nc : SumInts([i \in 1 .. Conv("FULL").len |-> Conv("FULL").ch[c][1][i][1]])
                                  = SumInts([i \in 1 .. Conv("SPECTRUM").len |-> Conv("SPECTRUM").ch[c][1][i][1]])

Inv == Modes /\ Commutative /\ Mirrored /\ ByTime /\ SumPreserved

Constraint == PrintT("@CASE " \o ToJson([init |-> <<a, b>>]))
===============================================================================
