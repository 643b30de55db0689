------------------------------- MODULE Bands -------------------------------
(* Band filters (C14). A channel is a record                                  *)
(*   pts    the support points <<x, y>> in any order; x is a rational number  *)
(*          <<numerator, denominator>> and y a pair <<re, im>> of them        *)
(*   inter, extra   the interpolation and extrapolation modes                 *)
(* The value at a frequency is a record                                       *)
(*   [t |-> "rat", v |-> <<re, im>>]   an exact value                         *)
(*   [t |-> "pow", s |-> 1 or -1, e |-> rational]    s * 2^e                  *)
(*   [t |-> "any"]                     not specified                          *)
(*   [t |-> "either", v |-> <<re, im>>, w |-> <<re, im>>]                     *)
EXTENDS Integers, Sequences, FiniteSets

Modes == {"ZERO", "ONE", "LINEAR", "LOGARITHMIC", "LOG_X", "LOG_Y", "STAIRS_LIN", "STAIRS_LOG"}

\* rational numbers with positive denominators
Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(q) == LET g == Gcd(Abs(q[1]), q[2]) IN IF q[1] = 0 THEN <<0, 1>> ELSE <<q[1] \div g, q[2] \div g>>
RAdd(a, b) == LET g == Gcd(a[2], b[2]) IN Norm(<<a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2]>>)
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == LET g == Gcd(Abs(a[1]), b[2])
                  h == Gcd(Abs(b[1]), a[2])
              IN IF a[1] = 0 \/ b[1] = 0 THEN <<0, 1>> ELSE <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
RInv(a) == IF a[1] > 0 THEN <<a[2], a[1]>> ELSE <<-a[2], -a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
RLess(a, b) == a[1] * b[2] < b[1] * a[2]
RLeq(a, b) == a[1] * b[2] <= b[1] * a[2]
REq(a, b) == a[1] * b[2] = b[1] * a[2]
ROne == <<1, 1>>
RZero == <<0, 1>>
One == <<ROne, RZero>>
Zero == <<RZero, RZero>>
CAdd(a, b) == <<RAdd(a[1], b[1]), RAdd(a[2], b[2])>>
CSub(a, b) == <<RSub(a[1], b[1]), RSub(a[2], b[2])>>
CScale(a, q) == <<RMul(a[1], q), RMul(a[2], q)>>
CMul(a, b) == <<RSub(RMul(a[1], b[1]), RMul(a[2], b[2])), RAdd(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
CInv(a) == LET d == RAdd(RMul(a[1], a[1]), RMul(a[2], a[2])) IN <<RDiv(a[1], d), RDiv(RNeg(a[2]), d)>>
CNeg(a) == <<RNeg(a[1]), RNeg(a[2])>>
IsZero(a) == a[1][1] = 0 /\ a[2][1] = 0

\* the binary logarithm of powers of two
Exponents == -10 .. 10
RECURSIVE Power(_, _)
Power(b, n) == IF n = 0 THEN 1 ELSE b * Power(b, n - 1)
PowerQ(b, n) == IF n >= 0 THEN <<Power(b, n), 1>> ELSE <<1, Power(b, -n)>>
HasLog(q) == q[1] > 0 /\ \E n \in Exponents : PowerQ(2, n) = Norm(q)
Log(q) == <<CHOOSE n \in Exponents : PowerQ(2, n) = Norm(q), 1>>

-----------------------------------------------------------------------------
Sorted(pts) ==
    LET Position(p) == Cardinality({i \in DOMAIN pts : RLess(pts[i][1], p[1])}) + 1
    IN [k \in 1 .. Len(pts) |-> LET i == CHOOSE i \in DOMAIN pts : Position(pts[i]) = k IN pts[i]]

Exact(v) == [t |-> "rat", v |-> v]
Unspecified == [t |-> "any"]

\* the straight line through (a, u) and (b, v) at x, all of them are rational
Line(a, b, u, v, x) == RAdd(u, RMul(RSub(v, u), RDiv(RSub(x, a), RSub(b, a))))
CLine(a, b, u, v, x) == <<Line(a, b, u[1], v[1], x), Line(a, b, u[2], v[2], x)>>

PositivePower(y) == y[2][1] = 0 /\ HasLog(y[1])

\* the value, that the mode defines for x from the neighbouring points p and q, which are the two nearest ones for an extrapolation
Between(mode, p, q, x) ==
    LET a == p[1]
        b == q[1]
        u == p[2]
        v == q[2]
        logx == HasLog(a) /\ HasLog(b) /\ HasLog(x)
        logy == PositivePower(u) /\ PositivePower(v)
    IN CASE mode = "ZERO" -> Exact(Zero)
         [] mode = "ONE" -> Exact(One)
         [] mode = "LINEAR" -> Exact(CLine(a, b, u, v, x))
         [] mode = "LOG_X" -> IF logx THEN Exact(CLine(Log(a), Log(b), u, v, Log(x))) ELSE Unspecified
         [] mode = "LOG_Y" -> IF logy THEN [t |-> "pow", s |-> 1, e |-> Line(a, b, Log(u[1]), Log(v[1]), x)] ELSE Unspecified
         [] mode = "LOGARITHMIC" -> IF logx /\ logy THEN [t |-> "pow", s |-> 1, e |-> Line(Log(a), Log(b), Log(u[1]), Log(v[1]), Log(x))]
                                                    ELSE Unspecified
         [] mode = "STAIRS_LIN" -> LET d == RSub(RSub(x, a), RSub(b, x)) IN IF d[1] < 0 THEN Exact(u) ELSE Exact(v)
         [] mode = "STAIRS_LOG" -> IF a[1] <= 0 \/ x[1] <= 0 THEN Unspecified
                                   ELSE LET l == RMul(x, x)
                                            r == RMul(a, b)
                                        IN IF REq(l, r) THEN [t |-> "either", v |-> u, w |-> v]
                                           ELSE IF RLess(l, r) THEN Exact(u) ELSE Exact(v)

\* outside of the support points
Outside(mode, sorted, x) ==
    LET n == Len(sorted)
        left == RLess(x, sorted[1][1])
        nearest == IF left THEN sorted[1] ELSE sorted[n]
    IN IF mode = "ZERO" THEN Exact(Zero)
       ELSE IF mode = "ONE" THEN Exact(One)
       ELSE IF mode \in {"STAIRS_LIN", "STAIRS_LOG"} THEN Exact(nearest[2])
       ELSE IF n = 1 THEN IF (mode \in {"LOG_Y", "LOGARITHMIC"} /\ ~(nearest[2][1][1] > 0 /\ nearest[2][2][1] = 0)) \/ (mode \in {"LOG_X", "LOGARITHMIC"} /\ nearest[1][1] <= 0)
                          THEN Unspecified ELSE Exact(nearest[2])
       ELSE IF left THEN Between(mode, sorted[1], sorted[2], x) ELSE Between(mode, sorted[n - 1], sorted[n], x)

Value(c, x) ==
    LET sorted == Sorted(c.pts)
        n == Len(sorted)
        At == {i \in 1 .. n : REq(sorted[i][1], x)}
    IN IF n = 0 THEN Exact(Zero)
       ELSE IF At # {} THEN Exact(sorted[CHOOSE i \in At : TRUE][2])
       ELSE IF RLess(x, sorted[1][1]) \/ RLess(sorted[n][1], x) THEN Outside(c.extra, sorted, x)
       ELSE LET i == CHOOSE i \in 1 .. n - 1 : RLess(sorted[i][1], x) /\ RLess(x, sorted[i + 1][1])
            IN Between(c.inter, sorted[i], sorted[i + 1], x)

-----------------------------------------------------------------------------
(* Operations. An operation either changes the values of the support points (abs, inverse, decibels) or is applied to    *)
(* the values at each frequency (arithmetic with numbers). An expression is a record [c |-> channel, ops |-> sequence of *)
(* pointwise operations].                                                                                              *)
MapPoints(c, F(_)) == [c EXCEPT !.pts = [i \in DOMAIN c.pts |-> <<c.pts[i][1], F(c.pts[i][2])>>]]

\* the magnitude of real numbers
RAbs(y) == <<<<Abs(y[1][1]), y[1][2]>>, RZero>>

Tens == -4 .. 4
HasTens(q) == q[1] > 0 /\ \E n \in Tens : PowerQ(10, n) = Norm(q)
LogTen(q) == CHOOSE n \in Tens : PowerQ(10, n) = Norm(q)
ToDb(y, reference, factor) == <<Norm(<<factor * LogTen(RDiv(y[1], reference)), 1>>), RZero>>
FromDb(y, reference, factor) == <<RMul(reference, PowerQ(10, y[1][1] \div (factor * y[1][2]))), RZero>>

OnNumber(y, op, q) ==
    CASE op = "neg" -> CNeg(y)
      [] op = "add" -> CAdd(y, <<q, RZero>>)
      [] op = "sub" -> CSub(y, <<q, RZero>>)
      [] op = "rsub" -> CSub(<<q, RZero>>, y)
      [] op = "mul" -> CScale(y, q)
      [] op = "div" -> CScale(y, RInv(q))
      [] op = "rdiv" -> CScale(CInv(y), q)
Undefined(y, op) == op = "rdiv" /\ IsZero(y)

\* arithmetic of a value with the real number q; q is a power of two for values, that are given as powers
Pointwise(v, op, q) ==
    CASE v.t = "any" -> v
      [] v.t = "rat" -> IF Undefined(v.v, op) THEN Unspecified ELSE Exact(OnNumber(v.v, op, q))
      [] v.t = "either" -> IF Undefined(v.v, op) \/ Undefined(v.w, op) THEN Unspecified
                           ELSE [t |-> "either", v |-> OnNumber(v.v, op, q), w |-> OnNumber(v.w, op, q)]
      [] v.t = "pow" -> CASE op = "neg" -> [v EXCEPT !.s = -v.s]
                          [] op \in {"mul", "div", "rdiv"} /\ HasLog(<<Abs(q[1]), q[2]>>) ->
                                LET lq == Log(<<Abs(q[1]), q[2]>>)
                                    s == IF q[1] < 0 THEN -v.s ELSE v.s
                                IN (CASE op = "mul" -> [t |-> "pow", s |-> s, e |-> RAdd(v.e, lq)]
                                     [] op = "div" -> [t |-> "pow", s |-> s, e |-> RSub(v.e, lq)]
                                     [] op = "rdiv" -> [t |-> "pow", s |-> s, e |-> RSub(lq, v.e)])
                          [] OTHER -> Unspecified

RECURSIVE ApplyAll(_, _)
ApplyAll(v, ops) == IF ops = <<>> THEN v ELSE ApplyAll(Pointwise(v, Head(ops).op, Head(ops).q), Tail(ops))
ValueOf(e, x) == ApplyAll(Value(e.c, x), e.ops)
=============================================================================
