----------------------------- MODULE FilterTrace -----------------------------
(* Validates recorded computations with filters. A trace is                   *)
(*   [points, events]                                                         *)
(* Events: [op, a, b, num, left, channels, f, keep, out, exc]; the result of  *)
(* an operation with keep is appended to the store of filters. The values     *)
(* out.val[c][k] are those, which the code has computed.                      *)
EXTENDS TraceLib, Terms

VARIABLES l, i, store, how

T == Trace[l]
E == T.events[i]
vars == <<l, i, store, how>>

FilterOf(f) == [k |-> "filter", lab |-> f.lab, val |-> [c \in 1 .. Len(f.terms) |-> Values(f.terms[c], T.points)]]

Agrees(recorded, expected) ==
    /\ Len(recorded) = Len(expected)
    /\ \A c \in 1 .. Len(expected) : Len(recorded[c]) = Len(expected[c]) /\ \A k \in 1 .. Len(expected[c]) : Matches(recorded[c][k], expected[c][k])

Result ==
    LET f == store[E.a] IN
    CASE E.op = "new" -> FilterOf(E.f)
      [] E.op \in {"+", "-", "*", "/"} /\ E.b # 0 -> Combine(E.op, f, store[E.b])
      [] E.op \in {"+", "-", "*", "/"} /\ E.b = 0 -> WithNumber(E.op, f, E.num, E.left)
      [] E.op \in {"neg", "abs", "invert"} -> Each(E.op, f)
      [] E.op = "select" -> [f EXCEPT !.lab = [c \in 1 .. Len(E.channels) |-> f.lab[E.channels[c]]],
                                      !.val = [c \in 1 .. Len(E.channels) |-> f.val[E.channels[c]]]]

\* how the filters have been built: the same operation on the same operands gives an equal filter
Key(e) == [op |-> e.op, a |-> e.a, b |-> e.b, num |-> e.num, left |-> e.left, channels |-> e.channels, f |-> e.f]
\* a division by a constant zero may be reported as an error
Undefined(x) == \E c \in 1 .. Len(x.val) : \A k \in 1 .. Len(x.val[c]) : U(x.val[c][k]) \/ IsZ(x.val[c][k])
Defined(x) == \A c \in 1 .. Len(x.val), k \in 1 .. Len(T.points) : ~U(x.val[c][k])

EqVerdict ==
    LET x == store[E.a] y == store[E.b] IN
    FirstViolated(<< <<"comparing two filters", E.exc = "">>,
                     <<"equality is symmetric", E.eq = E.qe>>,
                     <<"!= is the negation of ==", E.ne = ~E.eq>>,
                     <<"equal hashes", E.eq => E.hash>>,
                     <<"a filter is equal to itself", E.a = E.b /\ Defined(x) => E.eq>>,
                     <<"equal filters have equal labels", E.eq => x.lab = y.lab>>,
                     <<"equal filters have equal values",
                        E.eq => /\ Len(x.val) = Len(y.val)
                                /\ \A c \in 1 .. Len(x.val), k \in 1 .. Len(T.points) :
                                    \/ U(x.val[c][k]) \/ U(y.val[c][k]) \/ IsZ(x.val[c][k]) \/ IsZ(y.val[c][k])
                                    \/ x.val[c][k] = y.val[c][k]>>,
                     <<"filters, that have been built alike, are equal", how[E.a] = how[E.b] /\ Defined(x) => E.eq>> >>)

Verdict ==
    IF E.op = "eq" THEN EqVerdict
    ELSE LET x == Result IN
         IF x.k = "error" THEN IF E.exc = x.exc THEN "ok" ELSE E.op \o " must raise " \o x.exc \o " instead of " \o E.exc
         ELSE IF E.exc # "" THEN IF E.exc = "ZeroDivisionError" /\ Undefined(x) THEN "ok" ELSE E.op \o " raised " \o E.exc
         ELSE FirstViolated(<< <<E.op \o ": number of channels", Len(E.out.val) = Len(x.val)>>,
                               <<E.op \o ": labels", E.out.lab = x.lab>>,
                               <<E.op \o ": values", Agrees(E.out.val, x.val)>> >>)

Init == l = 1 /\ i = 1 /\ store = <<>> /\ how = <<>>
NextTrace == l' = l + 1 /\ i' = 1 /\ store' = <<>> /\ how' = <<>>
Next ==
    /\ l <= Len(Trace)
    /\ IF i > Len(T.events) THEN NextTrace
       ELSE LET v == Verdict IN
            /\ Report(l, i, v)
            /\ IF v = "ok" THEN /\ store' = IF E.keep THEN Append(store, Result) ELSE store
                                /\ how' = IF E.keep THEN Append(how, Key(E)) ELSE how
                                /\ i' = i + 1 /\ l' = l
               ELSE NextTrace
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter >= Len(Trace)
==============================================================================
