----------------------------- MODULE ValuesTrace -----------------------------
(* Validates recorded programs (see Values).                                  *)
(*   T.heap    the contents of the initial objects                            *)
(*   event     [op, args, operands, exc, results, keep, heap]                 *)
(*             results: the contents of the results, keep: TRUE, if they are  *)
(*             data sets, that are further operands, heap: the contents of    *)
(*             all objects after the operation                                *)
EXTENDS TraceLib

VARIABLES l, i, heap, memo
V == INSTANCE Values
vars == <<l, i, heap, memo>>
T == Trace[l]
E == T.events[i]
Nothing == [k \in {} |-> ""]
Init == l = 1 /\ i = 1 /\ heap = Trace[1].heap /\ memo = Nothing

Key == V!Key(E.op, E.args, E.operands, heap)
Outcome == <<E.exc>> \o E.results
Verdict ==
    CASE V!ChangedHandles(heap, E.heap) # {} -> E.op \o " has changed a data set, that has been created before"
      [] ~ V!Repeatable(memo, Key, Outcome) -> "repeating " \o E.op \o " with equal operands gives a different result"
      [] E.keep /\ E.exc = "" /\ Len(E.heap) # Len(heap) + Len(E.results) -> "bad trace"
      [] OTHER -> "ok"

Next ==
    /\ l <= Len(Trace)
    /\ LET v == Verdict IN
       /\ Report(l, i, v)
       /\ IF v = "ok" /\ i < Len(T.events)
          THEN i' = i + 1 /\ l' = l /\ heap' = E.heap /\ memo' = V!Memorize(memo, Key, Outcome)
          ELSE /\ l' = l + 1 /\ i' = 1 /\ memo' = Nothing
               /\ heap' = IF l < Len(Trace) THEN Trace[l + 1].heap ELSE <<>>
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter >= Len(Trace)
==============================================================================
