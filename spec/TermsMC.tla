------------------------------- MODULE TermsMC -------------------------------
(* Enumerates terms of the depth two, checks laws of their values and prints  *)
(* the terms.                                                                 *)
EXTENDS Terms, TLC, Json, IOUtils

VARIABLE case

P2 == [t |-> "poly", c |-> << <<1, 0>>, <<0, 0>>, <<2, 0>> >>, tr |-> FALSE]
Const(x) == [t |-> "const", v |-> x]
Atoms == << [t |-> "poly", c |-> << <<1, 0>>, <<2, 0>> >>, tr |-> FALSE],
            [t |-> "poly", c |-> << <<1, 0>>, <<2, 0>> >>, tr |-> TRUE],
            Const(<<2, 0, 1>>),
            Const(<<0, 0, 1>>),
            [t |-> "exp", m |-> 1, tr |-> TRUE],
            [t |-> "bands", v |-> << <<1, 0, 1>>, <<2, 0, 1>>, <<0, 0, 1>>, <<-3, 0, 1>> >>] >>
NAtoms == atoi(IOEnv.ATOMS)
Points == << <<0, 1>>, <<1, 2>>, <<1, 1>>, <<2, 1>> >>

TwoT == {"sum", "diff", "prod", "quot"}
TwoO == {"+", "-", "*", "/"}
OneT == {"neg", "abs"}
OneO == {"-x", "||", "~"}

\* the inner terms
Inner == {[t |-> T, x |-> <<Atoms[i], Atoms[j]>>, tr |-> b] : T \in TwoT, i \in 1 .. NAtoms, j \in 1 .. NAtoms, b \in BOOLEAN}
    \union {[t |-> T, x |-> <<Atoms[i], Atoms[j]>>, tr |-> FALSE] : T \in TwoO, i \in 1 .. NAtoms, j \in 1 .. NAtoms}
    \union {[t |-> T, x |-> <<Atoms[i]>>, tr |-> b] : T \in OneT, i \in 1 .. NAtoms, b \in BOOLEAN}
    \union {[t |-> T, x |-> <<Atoms[i]>>, tr |-> FALSE] : T \in OneO, i \in 1 .. NAtoms}
    \union {[t |-> T, x |-> <<Atoms[1], Atoms[i], Atoms[j]>>, tr |-> b] : T \in {"sum", "prod"}, i \in 1 .. NAtoms, j \in 1 .. NAtoms, b \in BOOLEAN}

\* the outer operation: both orders of an inner term and an atom (0: no second operand)
Outer == {<<T, b, i, left>> : T \in TwoT, b \in {TRUE}, i \in 1 .. NAtoms, left \in BOOLEAN}
    \union {<<T, FALSE, i, left>> : T \in TwoO, i \in 1 .. NAtoms, left \in BOOLEAN}
    \union {<<T, b, 0, FALSE>> : T \in OneT, b \in BOOLEAN}
    \union {<<T, FALSE, 0, FALSE>> : T \in OneO}

Init == case \in Inner
Next == UNCHANGED case
Spec == Init /\ [][Next]_case

Wrap(x, o) == [t |-> o[1], x |-> IF o[3] = 0 THEN <<x>> ELSE IF o[4] THEN <<Atoms[o[3]], x>> ELSE <<x, Atoms[o[3]]>>, tr |-> o[2]]

V(x, k) == Value(x, Points, k)
Both(x, y) == ~U(x) /\ ~U(y) /\ ~IsZ(x) /\ ~IsZ(y) => x = y
Laws == \A k \in 1 .. Len(Points) :
    LET N(t, xs, b) == [t |-> t, x |-> xs, tr |-> b] IN
    \* transforming twice is the identity
    /\ Both(V(N("neg", <<N("neg", <<case>>, TRUE)>>, TRUE), k), V(case, k))
    \* the transform distributes over the operands
    /\ \A i \in 1 .. NAtoms :
        /\ Both(V(N("sum", <<case, Atoms[i]>>, TRUE), k), QAdd(Eval(case, 1, Points, k), Eval(Atoms[i], 1, Points, k)))
        /\ Both(V(N("-", <<case, Atoms[i]>>, FALSE), k), V(N("+", <<case, N("-x", <<Atoms[i]>>, FALSE)>>, FALSE), k))
        /\ Both(V(N("/", <<case, Atoms[i]>>, FALSE), k), V(N("*", <<case, N("~", <<Atoms[i]>>, FALSE)>>, FALSE), k))
    \* a magnitude is not negative
    /\ LET m == V(N("||", <<case>>, FALSE), k) IN m[1] >= 0 /\ m[2] = 0
    /\ LET v == V(case, k) IN v[3] > 0 => Gcd(Gcd(v[3], Abs(v[1])), Abs(v[2])) = 1

Constraint == PrintT("@TERM " \o ToJson([inner |-> case, outer |-> IF IOEnv.WRAP = "yes" THEN {Wrap(case, o) : o \in Outer} ELSE {}]))
==============================================================================
