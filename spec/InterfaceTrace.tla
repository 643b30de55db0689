--------------------------- MODULE InterfaceTrace ---------------------------
(* Validates recorded calls:                                                  *)
(*   [op |-> "call", call, result, exc]   result: an identifier of the result *)
(*   [op |-> "flags", name, flags, distinct]                                  *)
EXTENDS TraceLib, FiniteSets

\* known: the results, that have been observed so far: <<callable, effective arguments, result>>
VARIABLES l, i, known
I == INSTANCE Interface
vars == <<l, i, known>>
T == Trace[l]
E == T.events[i]
Init == l = 1 /\ i = 1 /\ known = {}

Key(call) == <<call.callable, I!Effective(call)>>
Verdict ==
    CASE E.op = "call" ->
            (CASE ~ I!IsValid(E.call) -> "the harness has recorded an invalid call"
               [] E.exc # "" -> E.call.callable \o ": raised " \o E.exc
               [] \E x \in known : x[1] = Key(E.call) /\ x[2] # E.result -> E.call.callable \o ": the result depends on how the arguments are passed"
               [] OTHER -> "ok")
      [] E.op = "flags" ->
            (CASE E.exc # "" -> E.name \o ": raised " \o E.exc
               [] ~ I!Flags[E.name] \subseteq {E.flags[k] : k \in DOMAIN E.flags} -> E.name \o ": missing flag"
               [] E.distinct # Len(E.flags) -> E.name \o ": flags are not different"
               [] OTHER -> "ok")

Next ==
    /\ l <= Len(Trace)
    /\ LET v == Verdict IN
       /\ Report(l, i, v)
       /\ IF v = "ok" /\ i < Len(T.events)
          THEN i' = i + 1 /\ l' = l /\ known' = IF E.op = "call" THEN known \cup {<<Key(E.call), E.result>>} ELSE known
          ELSE l' = l + 1 /\ i' = 1 /\ known' = {}
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter >= Len(Trace)
==============================================================================
