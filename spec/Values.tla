------------------------------- MODULE Values -------------------------------
(* Data sets are values.                                                      *)
(*                                                                            *)
(* The heap is the sequence of the contents of all objects, that are alive    *)
(* (data sets, filters and the arrays, that have been passed to the library). *)
(* An operation reads objects of the heap and appends its results. It never   *)
(* changes a content. The memo maps an operation and the contents of its      *)
(* operands to its result: repeating it gives an equal result.                *)
EXTENDS Integers, Sequences, TLC

Key(op, args, operands, heap) == <<op, args, [i \in DOMAIN operands |-> heap[operands[i]]]>>

\* the handles, whose content is not what it has been before
ChangedHandles(heap, now) == {h \in DOMAIN heap : h \notin DOMAIN now \/ now[h] # heap[h]}

Repeatable(memo, key, result) == key \notin DOMAIN memo \/ memo[key] = result
Memorize(memo, key, result) == IF key \in DOMAIN memo THEN memo ELSE memo @@ (key :> result)
=============================================================================
