----------------------------- MODULE FilterEvalMC -----------------------------
(* Enumerates filters by the order of their channels: all sequences of a few  *)
(* kinds of transfer functions (low-pass, high-pass, mixtures, constants, ...)*)
EXTENDS Terms, TLC, Json, IOUtils

VARIABLE channels

Poly(c, tr) == [t |-> "poly", c |-> c, tr |-> tr]
P == << <<1, 0>>, <<2, 0>> >>
Const(x) == [t |-> "const", v |-> <<x, 0, 1>>]
N(t, x, tr) == [t |-> t, x |-> x, tr |-> tr]
Terms == << N("quot", <<Const(1), Poly(P, FALSE)>>, FALSE),
            N("quot", <<Const(1), Poly(P, TRUE)>>, FALSE),
            Const(3),
            [t |-> "bands", v |-> << <<1, 0, 1>>, <<2, 0, 1>>, <<0, 0, 1>>, <<-3, 0, 1>>, <<5, 0, 1>> >>],
            Poly(P, TRUE),
            N("sum", <<Poly(P, FALSE), Const(1), [t |-> "exp", m |-> 1, tr |-> FALSE]>>, TRUE),
            N("diff", <<Poly(P, TRUE), Const(1)>>, FALSE),
            [t |-> "exp", m |-> 2, tr |-> FALSE] >>
Points == << <<0, 1>>, <<1, 2>>, <<1, 1>>, <<3, 2>>, <<2, 1>> >>

Init == channels = <<>>
Next == Len(channels) < atoi(IOEnv.MAXLEN) /\ \E t \in 1 .. Len(Terms) : channels' = Append(channels, t)
Spec == Init /\ [][Next]_channels

\* the value of the filter at a point is a sequence, whose elements are functions of one channel each
Filter(cs) == [c \in 1 .. Len(cs) |-> Values(Terms[cs[c]], Points)]
Independent == \A c \in 1 .. Len(channels) : Filter(channels)[c] = Filter(<<channels[c]>>)[1]
Reversed(s) == [c \in 1 .. Len(s) |-> s[Len(s) + 1 - c]]
Equivariant == Reversed(Filter(channels)) = Filter(Reversed(channels))
Inv == Independent /\ Equivariant

Constraint == PrintT("@CHANNELS " \o ToJson([channels |-> channels])) /\ (channels = <<>> => PrintT("@TERMS " \o ToJson([terms |-> Terms, points |-> Points])))
===============================================================================
