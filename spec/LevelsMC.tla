------------------------------ MODULE LevelsMC ------------------------------
(* Enumerates small signals, integration intervals and decays, checks the     *)
(* laws, that follow from the definitions, and compares the algorithm of the  *)
(* code for the level over time with the definition.                          *)
EXTENDS Levels, TLC, Json, IOUtils

VARIABLES mode, case, pc
vars == <<mode, case, pc>>
MaxLength == atoi(IOEnv.MAXLENGTH)
MaxWindow == atoi(IOEnv.MAXWINDOW)

RECURSIVE Sequences(_, _)
Sequences(S, n) == IF n = 0 THEN {<<>>} ELSE {Append(s, x) : s \in Sequences(S, n - 1), x \in S}

(* the algorithm of the code: a convolution with a window, whose borders are partial samples, and a compensation for the missing samples at *)
(* the ends of the signal. All lengths are given in eighths of a sample.                                                                    *)
Half(q) == q - 4
Complete(q) == Half(q) \div 8
CodeWeights(n, t, q) ==
    [j \in 1 .. n |-> LET d == Abs(t - j) IN
                      IF d <= Complete(q) THEN 8 ELSE IF d = Complete(q) + 1 THEN Half(q) % 8 ELSE 0]
CodeLength(n, t, q) == Min(8 * (t - 1), Half(q)) + 8 + Min(8 * (n - t), Half(q))
CodeIsConstant(n, q) == 8 + Half(q) >= 8 * n

Identity(n) == [c \in 1 .. n |-> [i \in 1 .. n |-> IF c = i THEN 1 ELSE 0]]

Init == mode \in {"statistic", "window", "decay", "spectrum"} /\ case = <<>> /\ pc = "choose"
Choose ==
    /\ pc = "choose" /\ pc' = "done" /\ UNCHANGED mode
    /\ CASE mode = "statistic" -> \E n \in 1 .. 3 : \E nc \in 1 .. (IF n = 3 THEN 1 ELSE 2) : case' \in Sequences(Sequences({-2, -1, 0, 1, 3}, n), nc)
         [] mode = "window" -> \E n \in 1 .. MaxWindow, pad \in BOOLEAN : \E q \in 0 .. 8 * n + 12 : case' = [n |-> n, q |-> q, pad |-> pad]
         [] mode = "decay" -> \E n \in 2 .. MaxLength : \E steps \in Sequences(0 .. 2, n), start \in 0 .. n - 2 : \E stop \in start + 2 .. n :
                              case' = [y |-> [t \in 1 .. n |-> - Sum(SubSeq(steps, 1, t))], start |-> start, stop |-> stop]
         [] mode = "spectrum" -> \E n \in 1 .. 3 : case' \in Sequences({<<0, 0>>, <<1, 0>>, <<-2, 1>>, <<0, 3>>}, n)
Next == Choose
Spec == Init /\ [][Next]_vars

SameFraction(f, g) == f[1] * g[2] = g[1] * f[2]

StatisticInv ==
    LET s == Concatenated(case)
        shifted == [i \in DOMAIN s |-> s[i] + 2]
        scaled == [i \in DOMAIN s |-> -2 * s[i]]
        c2 == Central2(s) c3 == Central3(s) c4 == Central4(s)
    IN /\ c2 >= 0
       /\ Len(s) * Moment(s, 2) = c2 + Power(Sum(s), 2)
       \* the central moments do not depend on a constant and scale like the powers of the samples
       /\ Central2(shifted) = c2 /\ Central3(shifted) = c3 /\ Central4(shifted) = c4
       /\ Central2(scaled) = 4 * c2 /\ Central3(scaled) = -8 * c3 /\ Central4(scaled) = 16 * c4
       \* Pearson's inequality
       /\ c3 * c3 + c2 * c2 * c2 <= c4 * c2
       \* the square of the total level is the mean of the squared levels of the channels, as all channels have the same length
       /\ LevelSquare(s)[1] = Sum([c \in DOMAIN case |-> LevelSquare(case[c])[1]])
       /\ EnergyDecay(s)[1] = LevelSquare(s)[1]
       /\ \A t \in 1 .. Len(s) - 1 : EnergyDecay(s)[t] - EnergyDecay(s)[t + 1] = s[t] * s[t]

WindowInv ==
    LET n == case.n q == case.q
        ones == [i \in 1 .. n |-> 1]
    IN \A t \in 1 .. n :
       LET w == Weights(n, t, q) IN
       q > 4 =>
       \* the algorithm of the code
       /\ CodeWeights(n, t, q) = w
       /\ CodeLength(n, t, q) = Sum(w)
       /\ CodeIsConstant(n, q) => \A u \in 1 .. n : w = Weights(n, u, q)
       \* the interval does not count more than its length or the signal
       /\ Sum(w) <= 2 * q /\ Sum(w) <= 8 * n
       /\ (8 * (t - 1) >= Half(q) /\ 8 * (n - t) >= Half(q)) => Sum(w) = 2 * q
       \* mirror images
       /\ \A j \in 1 .. n : Weights(n, n + 1 - t, q)[n + 1 - j] = w[j]
       \* a constant signal has a constant level
       /\ ~ case.pad => SameFraction(LevelVsTimeSquare(ones, t, q, FALSE), <<1, 1>>)
       /\ case.pad => LevelVsTimeSquare(ones, t, q, TRUE)[1] <= LevelVsTimeSquare(ones, t, q, TRUE)[2]
       \* a long interval covers the whole signal
       /\ CodeIsConstant(n, q) => \A s \in {Identity(n)[c] : c \in 1 .. n} : SameFraction(LevelVsTimeSquare(s, t, q, FALSE), LevelSquare(s))

DecayInv ==
    LET line == Line(case.y, case.start, case.stop)
        D == line.m[2]
        residual(i) == case.y[i + 1] * D - LineAt(line, i)[1]
        points == [k \in 1 .. case.stop - case.start |-> case.start + k - 1]
    IN /\ D > 0
       \* the residuals of a least squares solution are orthogonal to the constant and to the linear function
       /\ Sum([k \in DOMAIN points |-> residual(points[k])]) = 0
       /\ Sum([k \in DOMAIN points |-> points[k] * residual(points[k])]) = 0
       \* energy decays
       /\ line.m[1] <= 0
       /\ case.stop = case.start + 2 => SameFraction(line.m, <<case.y[case.start + 2] - case.y[case.start + 1], 1>>)

SpectrumInv ==
    /\ Len(case) = 1 => SameFraction(SpectrumLevelSquare(case), <<SquareMagnitude(case[1]), 1>>)
    \* Parseval: the signal of length 2, that belongs to two real bins
    /\ Len(case) = 2 /\ case[1][2] = 0 /\ case[2][2] = 0 =>
       SameFraction(SpectrumLevelSquare(case), <<Power(case[1][1] + case[2][1], 2) + Power(case[1][1] - case[2][1], 2), 2 * 2 * 2>>)

Inv == pc = "done" =>
       CASE mode = "statistic" -> StatisticInv
         [] mode = "window" -> WindowInv
         [] mode = "decay" -> DecayInv
         [] mode = "spectrum" -> SpectrumInv
Constraint ==
    IF pc # "done" THEN TRUE
    ELSE CASE mode = "statistic" -> PrintT("@STATISTIC " \o ToJson(case))
           [] mode = "window" -> PrintT("@WINDOW " \o ToJson(case))
           [] mode = "decay" -> PrintT("@DECAY " \o ToJson(case))
           [] mode = "spectrum" -> PrintT("@SPECTRUM " \o ToJson(case))
=============================================================================
