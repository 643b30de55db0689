----------------------------- MODULE StoreTrace -----------------------------
(* Validates recorded sequences of operations on data sets. A trace is        *)
(*   [init |-> data sets, events |-> events with the fields out and exc,      *)
(*    final |-> all data sets of the store, as they are at the end]           *)
EXTENDS TraceLib

VARIABLES l, i, store

T == Trace[l]
M == INSTANCE Store

vars == <<l, i, store>>

Init == l = 1 /\ i = 1 /\ store = Trace[1].init

E == T.events[i]

Same(o, x, offsetDefined) ==
    FirstViolated(<< <<"type", o.k = x.k>>,
                     <<"number of channels", o.nc = x.nc>>,
                     <<"shape", o.len = x.len /\ (o.nf = x.nf \/ x.nc = 0)>>,
                     <<"offset", offsetDefined => o.off = x.off>>,
                     <<"sampling rate or resolution", o.sr = x.sr /\ o.res = x.res>>,
                     <<"labels", o.lab = x.lab>>,
                     <<"samples", o.ch = x.ch>> >>)

Verdict ==
    LET x == M!Result(E) IN
    IF x.k = "error" THEN IF E.exc = x.exc THEN "ok" ELSE E.op \o " must raise " \o x.exc \o " instead of " \o E.exc
    ELSE IF E.exc # "" THEN E.op \o " raised " \o E.exc
    ELSE LET v == Same(E.out, x, M!OffsetDefined(E)) IN IF v = "ok" THEN v ELSE E.op \o ": " \o v

\* at the end of the trace, all data sets in the store are what they were, when they have been created
FinalVerdict ==
    IF Len(T.final) # Len(store) THEN "final store"
    ELSE LET Bad == {k \in 1 .. Len(store) : T.final[k] # store[k]}
         IN IF Bad = {} THEN "ok" ELSE "an existing data set has been changed"

NextTrace == l' = l + 1 /\ i' = 1 /\ store' = IF l + 1 > Len(Trace) THEN <<>> ELSE Trace[l + 1].init

Next ==
    /\ l <= Len(Trace)
    /\ IF i > Len(T.events) THEN Report(l, i, FinalVerdict) /\ NextTrace
       ELSE LET v == Verdict IN
            /\ Report(l, i, v)
            /\ IF v = "ok" THEN M!Create(E) /\ i' = i + 1 /\ l' = l ELSE NextTrace

Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter >= Len(Trace)
===============================================================================
