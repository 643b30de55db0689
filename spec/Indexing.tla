------------------------------ MODULE Indexing ------------------------------
(* Slicing data sets (C08). A key is a sequence of one to three elements      *)
(*   [t |-> "int", v |-> n]                                                   *)
(*   [t |-> "float", v |-> <<p, q>>]         the number p/q, q > 0            *)
(*   [t |-> "slice", v |-> <<start, stop, step>>], each of them is            *)
(*        <<>> (omitted), <<n>> (an integer) or <<p, q>> (the float p/q)      *)
EXTENDS DataSets

\* p / q rounded to the nearest integer, ties to the even one
RoundHalfEven(p, q) ==
    LET n == p \div q
        r == 2 * (p % q)
    IN IF r < q THEN n ELSE IF r > q THEN n + 1 ELSE IF n % 2 = 0 THEN n ELSE n + 1

\* floats are scaled to the length, negative ones count from the end
ScaledIndex(p, q, len) ==
    LET i == RoundHalfEven(p * len, q) IN IF i < 0 /\ len > 0 THEN i % len ELSE i

Resolve(x, len) == IF Len(x) = 2 THEN ScaledIndex(x[1], x[2], len) ELSE x[1]

Clamp(x, lo, hi) == MaxOf(lo, MinOf(x, hi))

Step(v, len) == IF v[3] = <<>> THEN 1 ELSE Resolve(v[3], len)

\* the first index of a slice (counted from 0)
SliceStart(v, len) ==
    LET step == Step(v, len)
        lo == IF step > 0 THEN 0 ELSE -1
        hi == IF step > 0 THEN len ELSE len - 1
        x == IF v[1] = <<>> THEN 0 ELSE Resolve(v[1], len)
    IN IF v[1] = <<>> THEN IF step > 0 THEN 0 ELSE len - 1 ELSE Clamp(IF x < 0 THEN x + len ELSE x, lo, hi)
SliceStop(v, len) ==
    LET step == Step(v, len)
        lo == IF step > 0 THEN 0 ELSE -1
        hi == IF step > 0 THEN len ELSE len - 1
        x == IF v[2] = <<>> THEN 0 ELSE Resolve(v[2], len)
    IN IF v[2] = <<>> THEN IF step > 0 THEN len ELSE -1 ELSE Clamp(IF x < 0 THEN x + len ELSE x, lo, hi)

RECURSIVE Walk(_, _, _)
Walk(i, stop, step) ==
    IF (step > 0 /\ i >= stop) \/ (step < 0 /\ i <= stop) THEN <<>> ELSE <<i>> \o Walk(i + step, stop, step)

\* the addressed indices (counted from 0)
Selected(e, len) ==
    IF e.t = "slice" THEN Walk(SliceStart(e.v, len), SliceStop(e.v, len), Step(e.v, len))
    ELSE LET n == IF e.t = "float" THEN ScaledIndex(e.v[1], e.v[2], MaxOf(len - 1, 0)) ELSE e.v
             i == IF n < 0 THEN n + len ELSE n
         IN IF 0 <= i /\ i < len THEN <<i>> ELSE <<>>

All == [t |-> "slice", v |-> << <<>>, <<>>, <<>> >>]
Elem(key, i) == IF i <= Len(key) THEN key[i] ELSE All

\* the element of the key for the time or bin axis
LastAxis(d, key) == IF d.k = "spectrogram" THEN Elem(key, 3) ELSE Elem(key, 2)

\* by how many samples the first remaining sample is behind the beginning; it is not specified for reversed slices
Skipped(e, len) ==
    IF e.t = "slice" THEN SliceStart(e.v, len)
    ELSE IF Selected(e, len) = <<>> THEN 0 ELSE Selected(e, len)[1]
HasDefinedOffset(d, key) ==
    LET e == LastAxis(d, key)
    IN Selected(e, d.len) # <<>> /\ (e.t # "slice" \/ Step(e.v, d.len) > 0)

Slice(d, key) ==
    LET cs == Selected(Elem(key, 1), d.nc)
        fs == IF d.k = "spectrogram" THEN Selected(Elem(key, 2), d.nf) ELSE <<0>>
        is == Selected(LastAxis(d, key), d.len)
        F(c, f, i) == d.ch[cs[c] + 1][fs[f] + 1][is[i] + 1]
    IN [d EXCEPT !.nc = Len(cs), !.nf = Len(fs), !.len = Len(is),
                 !.off = IF d.k \in {"signal", "spectrogram"} THEN d.off + Skipped(LastAxis(d, key), d.len) ELSE d.off,
                 !.lab = [c \in 1 .. Len(cs) |-> d.lab[cs[c] + 1]],
                 !.ch = Build(Len(cs), Len(fs), Len(is), F)]
=============================================================================
