------------------------------ MODULE AlgebraMC ------------------------------
(* Enumerates the shapes of the operands of the algebra operators within      *)
(* small bounds, checks laws of the specified algebra and prints the cases,   *)
(* so that they are replayed on the implementation.                           *)
(* KINDS selects the types of the operands, e.g. "signal-signal".             *)
EXTENDS Algebra, TLC, Json, IOUtils

VARIABLE case

Kinds == IOEnv.KINDS
Deep == IOEnv.TIER = "thorough"

\* sample values by class: any, divisor or exponent
RealDivisors == <<1, -2, 3, 5, -4, 6, -1, 2, 0>>
MixedDivisors == <<1, -2, 4, 5, -1, 2, -4, 10>>
ComplexDivisors == << <<1, 0>>, <<0, 1>>, <<1, 1>>, <<-2, 0>>, <<1, -2>>, <<-1, 1>>, <<0, -2>>, <<2, 1>>, <<-1, -1>> >>

Value(k, seed, n, class) ==
    CASE class = "exponent" -> <<(n * 5 + seed) % 4, 0>>
      [] class = "divisor" /\ k = "signal" /\ Kinds = "signal-signal" -> <<RealDivisors[1 + ((n + seed) % 9)], 0>>
      [] class = "divisor" /\ k = "signal" -> <<MixedDivisors[1 + ((n + seed) % 8)], 0>>
      [] class = "divisor" -> ComplexDivisors[1 + ((n + seed) % 9)]
      [] k = "signal" -> <<((n * 7 + seed * 3) % 19) - 9, 0>>
      [] OTHER -> <<((n * 7 + seed * 3) % 19) - 9, ((n * 5 + seed) % 17) - 8>>

Mk(k, nc, nf, len, off, seed, class) ==
    LET F(c, f, i) == Value(k, seed, c * 11 + f * 5 + i, class)
        timed == k # "spectrum"
    IN [k |-> k, nc |-> nc, nf |-> nf, len |-> len, off |-> IF timed THEN off ELSE 0,
        sr |-> IF timed THEN <<40 + seed, 1>> ELSE <<0, 1>>, res |-> IF k = "signal" THEN <<0, 1>> ELSE <<20 + seed, 1>>,
        lab |-> [c \in 1 .. nc |-> "d" \o ToString(seed) \o "c" \o ToString(c)], ch |-> Build(nc, nf, len, F)]

Shapes(k, wide) ==
    LET ncs == {1, 2, 3}
        nfs == IF k = "spectrogram" THEN {1, 2} ELSE {1}
        lens == IF k = "spectrum" THEN {1, 2, 3} ELSE IF wide \/ k = "signal" THEN {1, 2, 3} ELSE {1, 2}
        offs == IF k = "spectrum" THEN {0} ELSE IF wide \/ k = "signal" THEN {-3, -1, 0, 1, 2} ELSE {-1, 0, 1, 2}
    IN [nc : ncs, nf : nfs, len : lens, off : offs]

MkFrom(k, s, seed, class) == Mk(k, s.nc, s.nf, s.len, s.off, seed, class)

KindA == CASE Kinds = "signal-signal" -> "signal" [] Kinds = "spectrum-spectrum" -> "spectrum" [] OTHER -> "spectrogram"
KindB == CASE Kinds = "signal-signal" \/ Kinds = "spectrogram-signal" -> "signal"
           [] Kinds = "spectrum-spectrum" \/ Kinds = "spectrogram-spectrum" -> "spectrum" [] OTHER -> "spectrogram"

\* the first operand is fixed to two samples and the offset 0, unless the bounds are deep
ShapesA == {s \in Shapes(KindA, FALSE) : Deep \/ (s.off = 0 /\ s.len = 2)}
ShapesB == {s \in Shapes(KindB, Deep) : Kinds = "spectrogram-spectrum" => s.len <= 2}

Cases == {[a |-> x, b |-> y] : x \in ShapesA, y \in ShapesB}

a == MkFrom(KindA, case.a, 1, "any")
aDiv == MkFrom(KindA, case.a, 2, "divisor")
aExp == MkFrom(KindA, case.a, 3, "exponent")
b == MkFrom(KindB, case.b, 4, "any")
bDiv == MkFrom(KindB, case.b, 5, "divisor")
bExp == MkFrom(KindB, case.b, 6, "exponent")

S == IF Kinds = "signal-signal" THEN 60 ELSE 20

Ev(o, x, y) == [op |-> o, a |-> x, b |-> y, s |-> IF o = "/" THEN S ELSE 1]
Events == << Ev("+", 1, 4), Ev("+", 4, 1), Ev("-", 1, 4), Ev("-", 4, 1), Ev("*", 1, 4), Ev("*", 4, 1), Ev("/", 1, 5), Ev("/", 4, 2),
             Ev("%", 1, 5), Ev("%", 4, 2), Ev("**", 1, 6), Ev("**", 4, 3) >>

Init == case \in Cases
Next == UNCHANGED case
Spec == Init /\ [][Next]_case

------------------------------------------------------------------------------
\* laws of the specified algebra
Ok(x) == x.k # "error"
SameSamples(x, y) == x.k = y.k /\ (Ok(x) => x.nc = y.nc /\ x.nf = y.nf /\ x.len = y.len /\ x.off = y.off /\ x.ch = y.ch)

Sum == Binary("+", 1, a, b)
Diff == Binary("-", 1, a, b)
Quot == Binary("/", S, a, bDiv)

Commutes == SameSamples(Sum, Binary("+", 1, b, a)) /\ SameSamples(Binary("*", 1, a, b), Binary("*", 1, b, a))
Subtraction == Ok(Diff) => /\ SameSamples(Diff, Binary("+", 1, a, Negative(1, b)))
                           /\ SameSamples(Diff, Negative(1, Binary("-", 1, b, a)))
WellFormed == Ok(Sum) => /\ IsDataSet(Sum)
                         /\ Sum.off <= a.off /\ Stop(Sum) >= Stop(a) /\ Sum.nc = MaxOf(a.nc, b.nc)
\* adding and subtracting the same data set gives the samples of the first one, extended by zeros
Cancels == Ok(Sum) =>
    LET x == Binary("-", 1, Sum, b) IN
    KindA = KindB => \A c \in 1 .. x.nc, f \in 1 .. x.nf : \A t \in x.off .. Stop(x) - 1 :
        At(x, c, f, t) = IF Has(a, c, f, t) THEN Sample(a, c, f, t) ELSE Zero
\* the quotients of small integers are exactly representable with the scale
QuotientsExact == Ok(Quot) => \A c \in 1 .. Quot.nc, f \in 1 .. Quot.nf, i \in 1 .. Quot.len : Quot.ch[c][f][i][1] # INEXACT

Inv == Commutes /\ Subtraction /\ WellFormed /\ Cancels /\ QuotientsExact

PrintCase == PrintT("@CASE " \o ToJson([init |-> <<a, aDiv, aExp, b, bDiv, bExp>>, events |-> Events]))
Constraint == PrintCase
==============================================================================
