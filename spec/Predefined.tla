----------------------------- MODULE Predefined -----------------------------
(* Predefined filters: the squared magnitudes of Butterworth, Chebyshev and   *)
(* Bessel filters at rational multiples of their cutoff frequency as exact    *)
(* fractions <<numerator, denominator>>, delays and derivatives.              *)
EXTENDS Integers, Sequences

Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Power(_, _)
Power(x, k) == IF k = 0 THEN 1 ELSE x * Power(x, k - 1)
RECURSIVE Factorial(_)
Factorial(n) == IF n <= 1 THEN 1 ELSE n * Factorial(n - 1)
RECURSIVE Binomial(_, _)
Binomial(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binomial(n - 1, k - 1) + Binomial(n - 1, k)
Even(n) == n % 2 = 0

\* the n-th Chebyshev polynomial at p / q, multiplied with q^n
RECURSIVE Chebyshev(_, _, _)
Chebyshev(n, p, q) ==
    IF n = 0 THEN 1 ELSE IF n = 1 THEN p ELSE 2 * p * Chebyshev(n - 1, p, q) - q * q * Chebyshev(n - 2, p, q)
ChebyshevAtZero(n) == IF Even(n) THEN 1 ELSE 0      \* (squared)

\* The coefficients of the reverse Bessel polynomial: c[k + 1] belongs to the k-th power
Bessel(n) == [k \in 1 .. n + 1 |-> (Binomial(2 * n - (k - 1), n) * (Factorial(n) \div Factorial(k - 1))) \div Power(2, n - (k - 1))]
\* The real and the imaginary part of the polynomial at j * p / q, multiplied with q^n
RECURSIVE SumOver(_, _)
SumOver(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumOver(f, n - 1)
BesselPart(n, p, q, odd) ==
    LET c == Bessel(n) IN
    SumOver([k \in 1 .. n + 1 |->
             IF ((k - 1) % 2 = 1) # odd THEN 0
             ELSE (IF (k - 1) % 4 \in {0, 1} THEN 1 ELSE -1) * c[k] * Power(p, k - 1) * Power(q, n - (k - 1))], n + 1)

\* The squared magnitude of the lowpass filter at p / q times the cutoff frequency.
\* e: the ripple parameter as a fraction: the squared factor, by which the ripple changes the magnitude, minus one
LowPass(type, n, e, p, q) ==
    CASE type = "Butterworth" -> <<Power(q, 2 * n), Power(q, 2 * n) + Power(p, 2 * n)>>
      [] type = "Chebyshev1" ->
            LET t == Chebyshev(n, p, q)
                scale == Power(q, 2 * n)
            IN <<scale * (e[2] + e[1] * ChebyshevAtZero(n)), e[2] * scale + e[1] * t * t>>
      [] type = "Chebyshev2" ->
            \* p = 0: the Chebyshev polynomial is infinite
            IF p = 0 THEN <<1, 1>>
            ELSE LET t == Chebyshev(n, q, p)
                     scale == Power(p, 2 * n)
                 IN <<e[2] * t * t, e[2] * t * t + e[1] * scale>>
      [] type = "Bessel" ->
            LET re == BesselPart(n, p, q, FALSE)
                im == BesselPart(n, p, q, TRUE)
                c0 == Bessel(n)[1] * Power(q, n)
            IN <<c0 * c0, re * re + im * im>>
\* highpass filters mirror the frequency at the cutoff frequency. Their value at 0Hz is zero.
SquaredMagnitude(type, n, e, highpass, p, q) ==
    IF ~ highpass THEN LowPass(type, n, e, p, q) ELSE IF p = 0 THEN <<0, 1>> ELSE LowPass(type, n, e, q, p)

RECURSIVE Divide(_, _, _, _)
Divide(quotient, remainder, den, digits) ==
    IF digits = 0 THEN quotient
    ELSE Divide(quotient * 10 + (remainder * 10) \div den, (remainder * 10) % den, den, digits - 1)
Fixed(fraction, digits) == Divide(fraction[1] \div fraction[2], fraction[1] % fraction[2], fraction[2], digits)
=============================================================================
