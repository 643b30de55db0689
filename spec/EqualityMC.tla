----------------------------- MODULE EqualityMC -----------------------------
(* Enumerates pairs of objects, that are equal or differ in a single part,   *)
(* and compares the step by step comparison of the code with the equality of *)
(* the content.                                                              *)
EXTENDS Equality, TLC, Json, IOUtils

VARIABLES mode, a, b, way, verdict, pc
vars == <<mode, a, b, way, verdict, pc>>
MaxSize == atoi(IOEnv.MAXSIZE)
Depth == atoi(IOEnv.DEPTH)

(* ------------------------------ data sets --------------------------------- *)
Shapes(k) == IF k = "spectrogram" THEN {<<x, y, z>> : x \in 1 .. 2, y \in 0 .. 2, z \in 0 .. 2}
             ELSE {<<x, y>> : x \in 1 .. MaxSize, y \in 0 .. MaxSize}
Size(s) == IF Len(s) = 3 THEN s[2] * s[3] ELSE s[2]
Rates(k) == IF k = "spectrogram" THEN <<1, 2>> ELSE <<1>>
Names == <<"a", "b", "c", "d">>
\* the samples are all different or all equal (then, they are equal to those of a data set with another shape after broadcasting)
Base(k, s, same) ==
    [k |-> k, shape |-> s, ch |-> [c \in 1 .. s[1] |-> [i \in 1 .. Size(s) |-> IF same THEN 0 ELSE 10 * c + 2 * i]],
     rates |-> Rates(k), off |-> 0, lab |-> [c \in 1 .. s[1] |-> IF same THEN "" ELSE Names[c]], nan |-> FALSE]

Reshaped(d) ==
    {Base(d.k, s, d.lab # <<>> /\ d.lab[1] = "") : s \in {s \in Shapes(d.k) : s # d.shape}}
Swapped(d) == IF d.shape[1] < 2 THEN {} ELSE {[d EXCEPT !.lab = [c \in 1 .. Len(d.lab) |-> d.lab[Len(d.lab) + 1 - c]]],
                                              [d EXCEPT !.ch = [c \in 1 .. Len(d.ch) |-> d.ch[Len(d.ch) + 1 - c]]]}
Changed(d) ==
    UNION {{d},
           {[d EXCEPT !.ch[c][i] = @ + 1] : c \in 1 .. d.shape[1], i \in 1 .. Size(d.shape)},
           {[d EXCEPT !.rates[r] = @ + 10] : r \in DOMAIN d.rates},
           IF d.k = "spectrum" THEN {} ELSE {[d EXCEPT !.off = 1], [d EXCEPT !.off = -1]},
           {[d EXCEPT !.lab[c] = @ \o "x"] : c \in 1 .. d.shape[1]},
           Swapped(d),
           Reshaped(d)}

\* the steps of the comparison in the code
Broadcastable(s, u) == \A i \in DOMAIN s : s[i] = u[i] \/ s[i] = 1 \/ u[i] = 1
CodeEqual(d, e) ==
    CASE d.k # e.k -> FALSE
      [] d.rates # e.rates -> FALSE
      [] d.off # e.off -> FALSE
      [] d.shape # e.shape -> FALSE
      [] \E c \in DOMAIN d.ch : \E i \in DOMAIN d.ch[c] : d.ch[c][i] # e.ch[c][i] -> FALSE
      [] d.lab # e.lab -> FALSE
      [] OTHER -> TRUE

(* -------------------------------- terms ----------------------------------- *)
T(t, p, tr, x) == [t |-> t, p |-> p, tr |-> tr, x |-> x]
Leaves == {T("const", <<1>>, FALSE, <<>>), T("poly", <<1, 2>>, FALSE, <<>>), T("exp", <<1>>, TRUE, <<>>), T("bands", <<1, 2, 3, 4, 0, 1>>, FALSE, <<>>)}
Unary == {"abs", "neg"}
Binary == {"sum", "diff", "prod", "quot"}
RECURSIVE Terms(_)
Terms(n) ==
    IF n = 0 THEN Leaves
    ELSE LET S == Terms(n - 1) IN
         S \union {T(u, <<>>, n = 1, <<x>>) : u \in Unary, x \in S}
           \union {T(o, <<>>, FALSE, <<x, y>>) : o \in Binary, x \in S, y \in IF n = 1 THEN S ELSE Leaves}

Other == [abs |-> "neg", neg |-> "abs", sum |-> "prod", prod |-> "sum", diff |-> "quot", quot |-> "diff"]
RECURSIVE Mutants(_)
Mutants(t) ==
    UNION {{[t EXCEPT !.p[i] = IF t.t = "bands" /\ i > 4 THEN (@ + 1) % 6 ELSE @ + 1] : i \in DOMAIN t.p},
           IF t.t \in {"const", "bands"} THEN {} ELSE {[t EXCEPT !.tr = ~ t.tr]},
           \* an additional coefficient
           IF t.t = "poly" THEN {[t EXCEPT !.p = Append(@, 3)], [t EXCEPT !.p = <<1>>], [t EXCEPT !.p = <<0>> \o @]} ELSE {},
           IF t.t = "const" THEN {T("poly", t.p, FALSE, <<>>), T("const", <<0>>, FALSE, <<>>), T("const", <<-1>>, FALSE, <<>>)} ELSE {},
           IF t.t \in Unary \union Binary THEN {[t EXCEPT !.t = Other[@]]} ELSE {},
           IF t.t \in Binary THEN {[t EXCEPT !.x = <<@[2], @[1]>>]} ELSE {},
           IF t.t \in {"sum", "prod"} THEN {[t EXCEPT !.x = Append(@, T("const", <<2>>, FALSE, <<>>))], [t EXCEPT !.x = <<@[1]>>]} ELSE {},
           UNION {{[t EXCEPT !.x[i] = m] : m \in Mutants(t.x[i])} : i \in DOMAIN t.x}}

(* -------------------------------- labels ---------------------------------- *)
RECURSIVE StringsOf(_)
StringsOf(n) == IF n = 0 THEN {<<>>} ELSE StringsOf(n - 1) \union {Append(s, x) : s \in {u \in StringsOf(n - 1) : Len(u) = n - 1}, x \in {"", "p", "q r"}}

Init == /\ mode \in {"data", "term", "labels"} /\ a = <<>> /\ b = <<>> /\ way = 0 /\ verdict = FALSE /\ pc = "choose"
Choose ==
    /\ pc = "choose" /\ pc' = "mutate" /\ UNCHANGED <<mode, b, way, verdict>>
    /\ CASE mode = "data" -> \E k \in {"signal", "spectrum", "spectrogram"}, same \in BOOLEAN : \E s \in Shapes(k) : a' = Base(k, s, same)
         [] mode = "term" -> a' \in Terms(Depth)
         [] mode = "labels" -> a' \in StringsOf(3)
Mutate ==
    /\ pc = "mutate" /\ pc' = "done" /\ UNCHANGED <<mode, a, way>>
    /\ CASE mode = "data" -> (/\ \/ b' \in Changed(a)
                                 \/ \E k \in {"signal", "spectrum"} \ {a.k} : a.k # "spectrogram" /\ b' = [a EXCEPT !.k = k]
                              /\ verdict' = CodeEqual(a, b'))
         [] mode = "term" -> (b' \in {a} \union Mutants(a) /\ verdict' = TermEqual(a, b'))
         [] mode = "labels" -> (\E n \in 1 .. 4 : b' = Sanitized(a, n) /\ verdict' = (Len(b') = n))
Next == Choose \/ Mutate
Spec == Init /\ [][Next]_vars

Inv ==
    pc = "done" =>
    CASE mode = "data" -> /\ verdict <=> Equal(a, b)
                          /\ CodeEqual(b, a) <=> verdict
                          \* comparing the samples never depends on broadcasting
                          /\ verdict => a.shape = b.shape
      [] mode = "term" -> /\ verdict <=> a = b
                          /\ TermEqual(b, a) <=> verdict
      [] mode = "labels" -> /\ verdict
                            /\ \A i \in DOMAIN b : IF i <= Len(a) THEN b[i] = a[i] ELSE b[i] = ""
Constraint ==
    CASE pc = "done" /\ mode = "data" -> PrintT("@DATA " \o ToJson([a |-> a, b |-> b]))
      [] pc = "done" /\ mode = "term" -> PrintT("@TERM " \o ToJson([a |-> a, b |-> b]))
      [] pc = "done" /\ mode = "labels" -> PrintT("@LABELS " \o ToJson([given |-> a, number |-> Len(b)]))
      [] OTHER -> TRUE
=============================================================================
