-------------------------------- MODULE Terms --------------------------------
(* The transfer functions of filters (C12, C13).                              *)
(*                                                                            *)
(* Values are Gaussian rationals <<re, im, den>> in lowest terms, den > 0.    *)
(*   Unspecified  (den = 0) the model makes no statement (division by zero,   *)
(*                irrational magnitudes or numbers, that are too large)       *)
(*   Z            (den = -1) zero by definition: the value of a low-pass to   *)
(*                high-pass transformed transfer function at 0Hz              *)
(*                                                                            *)
(* Frequencies are given as points <<p, q>>: the frequency (p / q) / 2 pi, so *)
(* that s = j * p / q. A term is a tree                                       *)
(*   [t |-> "const", v |-> value]                                             *)
(*   [t |-> "poly", c |-> pairs (highest power first), tr |-> transform]      *)
(*   [t |-> "exp", m |-> integer, tr]     exp(m * pi * s)                     *)
(*   [t |-> "bands", v |-> one value for each point]                          *)
(*   [t |-> T, x |-> operands, tr]                                            *)
(* where T is "abs", "neg", "sum", "diff", "prod" or "quot" for the terms'    *)
(* constructors and "+", "-", "*", "/", "-x", "~" or "||" for the operators   *)
(* of terms (tr is FALSE for those).                                          *)
EXTENDS Integers, Sequences

Unspecified == <<0, 0, 0>>
Z == <<0, 0, -1>>
Bound == 20000
BoundD == 500

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)

Norm(re, im, den) ==
    LET g == Gcd(Gcd(Abs(den), Abs(re)), Abs(im))
        sg == IF den < 0 THEN -1 ELSE 1
        v == << sg * (re \div g), sg * (im \div g), Abs(den) \div g >>
    IN IF den = 0 \/ Abs(v[1]) > Bound \/ Abs(v[2]) > Bound \/ v[3] > BoundD THEN Unspecified ELSE v

Is0(x) == x[1] = 0 /\ x[2] = 0 /\ x[3] = 1
U(x) == x[3] = 0
IsZ(x) == x[3] = -1

QNeg(x) == IF x[3] <= 0 THEN x ELSE <<-x[1], -x[2], x[3]>>
QAdd(x, y) ==
    IF U(x) \/ U(y) THEN Unspecified
    ELSE IF IsZ(x) THEN IF IsZ(y) \/ Is0(y) THEN Z ELSE Unspecified
    ELSE IF IsZ(y) THEN IF Is0(x) THEN Z ELSE Unspecified
    ELSE Norm(x[1] * y[3] + y[1] * x[3], x[2] * y[3] + y[2] * x[3], x[3] * y[3])
QSub(x, y) == QAdd(x, QNeg(y))
QMul(x, y) ==
    IF U(x) \/ U(y) THEN Unspecified
    ELSE IF IsZ(x) THEN IF Is0(y) THEN Unspecified ELSE Z
    ELSE IF IsZ(y) THEN IF Is0(x) THEN Unspecified ELSE Z
    ELSE Norm(x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1], x[3] * y[3])
\* the numerator of an unreduced quotient times n, if this is small enough
QDiv(x, y) ==
    IF U(x) \/ U(y) THEN Unspecified
    ELSE IF IsZ(x) THEN IF IsZ(y) \/ Is0(y) THEN Unspecified ELSE Z
    ELSE IF IsZ(y) \/ Is0(y) THEN Unspecified   \* the difference of equal transformed terms may be simplified to a constant zero
    ELSE LET re == x[1] * y[1] + x[2] * y[2]
             im == x[2] * y[1] - x[1] * y[2]
             n == y[1] * y[1] + y[2] * y[2]
             g == Gcd(Gcd(n, Abs(re)), Abs(im))
         IN IF Abs(re \div g) > 2000000 \/ Abs(im \div g) > 2000000 \/ n \div g > 2000000 THEN Unspecified
            ELSE Norm((re \div g) * y[3], (im \div g) * y[3], (n \div g) * x[3])
RECURSIVE ISqrt(_, _, _)
ISqrt(n, lo, hi) ==     \* the largest integer in lo .. hi, whose square is not larger than n
    IF lo >= hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN ISqrt(n, m, hi) ELSE ISqrt(n, lo, m - 1)
QAbs(x) ==
    IF x[3] <= 0 THEN x
    ELSE LET n == x[1] * x[1] + x[2] * x[2]
             r == ISqrt(n, 0, 30000)
         IN IF r * r = n THEN Norm(r, 0, x[3]) ELSE Unspecified

\* the value of s (or 1 / s for transformed terms) at a point
Sv(point, odd) == IF odd THEN <<0, -point[2], point[1]>> ELSE <<0, point[1], point[2]>>
At0Hz(point) == point[1] = 0

RECURSIVE Horner(_, _, _)
Horner(c, s, acc) == IF c = <<>> THEN acc ELSE Horner(Tail(c), s, QAdd(QMul(acc, s), <<Head(c)[1], Head(c)[2], 1>>))

\* a polynomial without powers of s does not depend on s
IsConstant(c) == \A i \in 1 .. Len(c) - 1 : c[i] = <<0, 0>>

\* j ^ n
Turn(n) == LET r == n % 4 IN IF r = 0 THEN <<1, 0, 1>> ELSE IF r = 1 THEN <<0, 1, 1>> ELSE IF r = 2 THEN <<-1, 0, 1>> ELSE <<0, -1, 1>>
\* exp(j * pi * p / q)
ExpJPi(p, q) == IF (2 * p) % q = 0 THEN Turn((2 * p) \div q) ELSE Unspecified

Odd(n) == n % 2 = 1
Inside(n, tr) == IF tr THEN n + 1 ELSE n

RECURSIVE Eval(_, _, _, _), AddAll(_, _, _, _), MulAll(_, _, _, _)
\* the value of a term, that is inside of n transforms, at the k-th of the given points
\* At 0Hz there is only a statement about terms, that are not transformed at all, or whose variable s is transformed.
Eval(term, n, points, k) ==
    LET point == points[k] IN
    CASE term.t = "const" -> IF n > 0 /\ At0Hz(point) THEN Unspecified ELSE <<term.v[1], term.v[2], term.v[3]>>
      [] term.t = "poly" ->
            LET m == Inside(n, term.tr) IN
            IF m > 0 /\ At0Hz(point) THEN IF IsConstant(term.c) \/ ~Odd(m) THEN Unspecified ELSE Z
            ELSE Horner(term.c, Sv(point, Odd(m)), <<0, 0, 1>>)
      [] term.t = "exp" ->
            LET m == Inside(n, term.tr) IN
            IF m > 0 /\ At0Hz(point) THEN IF term.m = 0 \/ ~Odd(m) THEN Unspecified ELSE Z
            ELSE IF Odd(m) THEN ExpJPi(-term.m * point[2], point[1]) ELSE ExpJPi(term.m * point[1], point[2])
      [] term.t = "bands" -> IF n > 0 /\ At0Hz(point) THEN Unspecified ELSE <<term.v[k][1], term.v[k][2], term.v[k][3]>>
      [] term.t \in {"sum", "+"} -> AddAll(term.x, Inside(n, term.tr), points, k)
      [] term.t \in {"prod", "*"} -> MulAll(term.x, Inside(n, term.tr), points, k)
      [] term.t \in {"diff", "-"} ->
            LET m == Inside(n, term.tr) IN QSub(Eval(term.x[1], m, points, k), Eval(term.x[2], m, points, k))
      [] term.t \in {"quot", "/"} ->
            LET m == Inside(n, term.tr) IN QDiv(Eval(term.x[1], m, points, k), Eval(term.x[2], m, points, k))
      [] term.t \in {"neg", "-x"} -> QNeg(Eval(term.x[1], Inside(n, term.tr), points, k))
      [] term.t \in {"abs", "||"} -> QAbs(Eval(term.x[1], Inside(n, term.tr), points, k))
      [] term.t = "~" -> QDiv(<<1, 0, 1>>, Eval(term.x[1], Inside(n, term.tr), points, k))
AddAll(xs, n, points, k) ==
    IF xs = <<>> THEN <<0, 0, 1>>
    ELSE IF Len(xs) = 1 THEN Eval(xs[1], n, points, k)
    ELSE QAdd(Eval(xs[1], n, points, k), AddAll(Tail(xs), n, points, k))
MulAll(xs, n, points, k) ==
    IF Len(xs) = 1 THEN Eval(xs[1], n, points, k)
    ELSE QMul(Eval(xs[1], n, points, k), MulAll(Tail(xs), n, points, k))

Value(term, points, k) == Eval(term, 0, points, k)
Values(term, points) == [k \in 1 .. Len(points) |-> Value(term, points, k)]

\* whether a recorded value <<re, im, den>> (den = 0, if it is not finite or no small fraction) is allowed
Matches(recorded, v) == IF U(v) THEN TRUE ELSE IF IsZ(v) THEN recorded = <<0, 0, 1>> ELSE recorded = v

-------------------------------------------------------------------------------
\* Filters: [lab |-> labels, val |-> for each channel the values at the points]

Calc(op, x, y) ==
    CASE op = "+" -> QAdd(x, y)
      [] op = "-" -> QSub(x, y)
      [] op = "*" -> QMul(x, y)
      [] op = "/" -> QDiv(x, y)

Error(name) == [k |-> "error", exc |-> name]
Name(op) == CASE op = "+" -> "Sum" [] op = "-" -> "Difference" [] op = "*" -> "Product" [] op = "/" -> "Quotient"

Combine(op, f, g) ==
    LET n == Len(f.val)
        m == Len(g.val)
        r == IF n = 1 THEN m ELSE n
        Ch(x, c) == IF Len(x.val) = 1 THEN x.val[1] ELSE x.val[c]
    IN IF n # m /\ n # 1 /\ m # 1 THEN Error("ValueError")
       ELSE [k |-> "filter", lab |-> [c \in 1 .. r |-> Name(op)],
             val |-> [c \in 1 .. r |-> [i \in 1 .. Len(Ch(f, c)) |-> Calc(op, Ch(f, c)[i], Ch(g, c)[i])]]]
WithNumber(op, f, x, left) ==
    [k |-> "filter", lab |-> f.lab,
     val |-> [c \in 1 .. Len(f.val) |-> [i \in 1 .. Len(f.val[c]) |-> IF left THEN Calc(op, x, f.val[c][i]) ELSE Calc(op, f.val[c][i], x)]]]
Each(op, f) ==
    LET G(x) == CASE op = "neg" -> QNeg(x) [] op = "abs" -> QAbs(x) [] op = "invert" -> QDiv(<<1, 0, 1>>, x)
    IN [f EXCEPT !.val = [c \in 1 .. Len(f.val) |-> [i \in 1 .. Len(f.val[c]) |-> G(f.val[c][i])]]]
==============================================================================
