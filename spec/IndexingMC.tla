------------------------------ MODULE IndexingMC ------------------------------
(* Enumerates all elements of keys for short axes, checks laws of the         *)
(* specified slicing and prints the elements for the replay.                  *)
EXTENDS Indexing, TLC, Json, IOUtils

VARIABLES len, elem

MaxLen == atoi(IOEnv.MAXLEN)

Ints(n) == {[t |-> "int", v |-> x] : x \in (-n - 2) .. (n + 1)}
Floats == {[t |-> "float", v |-> <<p, 8>>] : p \in -8 .. 8}
Bounds(n) == {<< >>} \union {<<x>> : x \in (-n - 1) .. (n + 1)} \union {<<p, 4>> : p \in -4 .. 4}
Steps == {<< >>, <<1>>, <<2>>, <<-1>>, <<-2>>}
Slices(n) == {[t |-> "slice", v |-> <<x, y, s>>] : x \in Bounds(n), y \in Bounds(n), s \in Steps}

Init == len \in 1 .. MaxLen /\ elem \in Ints(len) \union Floats \union Slices(len)
Next == UNCHANGED <<len, elem>>
Spec == Init /\ [][Next]_<<len, elem>>

Sel == Selected(elem, len)

\* only existing indices are selected, each at most once, equidistantly in one direction
Sane == /\ \A k \in 1 .. Len(Sel) : 0 <= Sel[k] /\ Sel[k] < len
        /\ elem.t # "slice" => Len(Sel) <= 1
        /\ elem.t = "slice" => \A k \in 1 .. Len(Sel) - 1 : Sel[k + 1] - Sel[k] = Step(elem.v, len)
\* s[x] is s[x:x+1], negative indices count from the end
Scalars == elem.t = "int" => /\ (elem.v \in 0 .. len - 1) => Sel = <<elem.v>>
                             /\ (elem.v \in -len .. -1) => Sel = <<elem.v + len>>
                             /\ (elem.v \notin -len .. len - 1) => Sel = <<>>
\* s[:n] and s[n:] together are s
Split == elem.t = "slice" /\ elem.v[1] = <<>> /\ elem.v[3] = <<>> =>
            Sel \o Selected([elem EXCEPT !.v = <<elem.v[2], << >>, << >>>>], len) = [k \in 1 .. len |-> k - 1]
            \/ elem.v[2] = <<>>
\* the first and the last element and the whole axis can be addressed with floats
FloatEnds == elem.t = "float" /\ elem.v[1] \in {0, 8} => Sel = <<IF elem.v[1] = 0 THEN 0 ELSE len - 1>>

Inv == Sane /\ Scalars /\ Split /\ FloatEnds

Constraint == PrintT("@ELEM " \o ToJson([len |-> len, elem |-> elem]))
===============================================================================
