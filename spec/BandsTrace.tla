----------------------------- MODULE BandsTrace -----------------------------
(* Validates recorded programs with band filters. An entry of the store is a  *)
(* record [ch |-> sequence of expressions, lab |-> labels].                   *)
(*   create  [pts, inter, extra, given]: the parameters of the constructor    *)
(*   apply   [a, name, q]          arithmetic with the number q               *)
(*   map     [a, name, q, factor]  abs, invert, to_db, from_db                *)
(*   eval    [a, f, out]: out[c][i] is the value of channel c at f[i]         *)
EXTENDS TraceLib

VARIABLES l, i, store

B == INSTANCE Bands
vars == <<l, i, store>>
T == Trace[l]
E == T.events[i]
Init == l = 1 /\ i = 1 /\ store = <<>>

FlagAt(flags, k) == flags[IF k <= Len(flags) THEN k ELSE Len(flags)]
Created == [k \in 1 .. Len(E.pts) |-> [c |-> [pts |-> E.pts[k], inter |-> FlagAt(E.inter, k), extra |-> FlagAt(E.extra, k)], ops |-> <<>>]]
Mapped(c) ==
    CASE E.name = "abs" -> B!MapPoints(c, B!RAbs)
      [] E.name = "invert" -> B!MapPoints(c, B!CInv)
      [] E.name = "to_db" -> B!MapPoints(c, LAMBDA y : B!ToDb(y, E.q, E.factor))
      [] E.name = "from_db" -> B!MapPoints(c, LAMBDA y : B!FromDb(y, E.q, E.factor))
Result ==
    CASE E.op = "create" -> Created
      [] E.op = "apply" -> [k \in DOMAIN store[E.a] |-> [store[E.a][k] EXCEPT !.ops = Append(@, [op |-> E.name, q |-> E.q])]]
      [] E.op = "map" -> [k \in DOMAIN store[E.a] |-> [store[E.a][k] EXCEPT !.c = Mapped(@)]]

\* the recorded fractions are reduced to lowest terms
Abs(n) == IF n < 0 THEN -n ELSE n
\* numbers with very large numerators or denominators cannot be recognised in the recorded floating point numbers
Representable(q) == q[2] <= 20000 /\ Abs(q[1]) < 1000000000 /\ Abs(q[1]) \div q[2] < 1000000
SameNumber(o, q) == Representable(B!Norm(q)) => o = B!Norm(q)
Same(o, v) == SameNumber(o.re, v[1]) /\ SameNumber(o.im, v[2])
Explains(o, v) ==
    CASE v.t = "any" -> TRUE
      [] v.t = "rat" -> Same(o, v.v)
      [] v.t = "either" -> Same(o, v.v) \/ Same(o, v.w)
      \* values, that exceed the range of floating point numbers, are not specified
      [] v.t = "pow" -> Abs(v.e[1]) >= 900 * v.e[2] \/ (o.s = v.s /\ SameNumber(o.lg, v.e))

Verdict ==
    CASE E.exc # "" -> E.op \o " raised " \o E.exc
      [] E.op = "eval" ->
            (CASE Len(E.out) # Len(store[E.a]) -> "eval: number of channels"
              [] ~ \A c \in DOMAIN E.out : Len(E.out[c]) = Len(E.f) -> "eval: shape"
              [] ~ \A c \in DOMAIN E.out, k \in DOMAIN E.f : Explains(E.out[c][k], B!ValueOf(store[E.a][c], E.f[k])) -> "eval: value"
              [] OTHER -> "ok")
      [] E.op = "create" -> IF Len(E.lab) = Len(E.pts) /\ \A k \in DOMAIN E.lab : k <= Len(E.given) => E.lab[k] = E.given[k]
                            THEN "ok" ELSE "create: labels"
      [] OTHER -> IF E.lab = E.before THEN "ok" ELSE E.op \o ": labels"

Next ==
    /\ l <= Len(Trace)
    /\ LET v == Verdict IN
       /\ Report(l, i, v)
       /\ IF v = "ok" /\ i < Len(T.events)
          THEN i' = i + 1 /\ l' = l /\ store' = IF E.op = "eval" THEN store ELSE Append(store, Result)
          ELSE l' = l + 1 /\ i' = 1 /\ store' = <<>>

Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter >= Len(Trace)
===============================================================================
