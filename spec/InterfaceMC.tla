---------------------------- MODULE InterfaceMC ----------------------------
(* All ways of passing the arguments: the parameters are decided one after    *)
(* the other, if they are passed by position, by keyword or not at all.       *)
EXTENDS Interface, TLC, Json

VARIABLES call, next
vars == <<call, next>>
Init == next = 1 /\ \E c \in Callables : call = [callable |-> c, args |-> << >>, kwargs |-> << >>]
P == Table[call.callable][next]
ByPosition == Len(call.args) = next - 1 /\ call' = [call EXCEPT !.args = Append(@, P[3])]
ByKeyword == call' = [call EXCEPT !.kwargs = Append(@, <<P[1], P[3]>>)]
\* an explicitly given default
Redundant == P[2] # Required /\ next = Len(Table[call.callable]) /\ call' = [call EXCEPT !.kwargs = Append(@, <<P[1], P[2]>>)]
NotAtAll == P[2] # Required /\ UNCHANGED call
Next == next <= Len(Table[call.callable]) /\ next' = next + 1 /\ (ByPosition \/ ByKeyword \/ Redundant \/ NotAtAll)
Spec == Init /\ [][Next]_vars

Complete == next > Len(Table[call.callable])
Inv ==
    /\ Complete => IsValid(call) /\ IsValid(Explicit(call))
    /\ Complete => Effective(Explicit(call)) = Effective(call)
    /\ Cardinality(Names(call.callable)) = Len(Table[call.callable])
    \* parameters, that have no default, come before those, that have one. (The seed is treated as if it had none.)
    /\ \A k \in DOMAIN Table[call.callable] : k > 1 /\ Table[call.callable][k][2] = Required /\ Table[call.callable][k][1] # "seed" => Table[call.callable][k - 1][2] = Required
    /\ \A k \in DOMAIN Table[call.callable] : Table[call.callable][k][2] # Table[call.callable][k][3]
Constraint == IF Complete THEN PrintT("@CALL " \o ToJson([call |-> call, explicit |-> Explicit(call)])) ELSE TRUE
=============================================================================
