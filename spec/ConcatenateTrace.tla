------------------------------ MODULE ConcatenateTrace ---------------------------
(* Validates recorded executions of sumpf.Concatenate. A trace is             *)
(*   [pool |-> data sets, init |-> indices, events |-> events]                *)
EXTENDS TraceLib

VARIABLES l, i, data, nextId

T == Trace[l]
M == INSTANCE Concatenate

vars == <<l, i, data, nextId>>

Load(line) ==
    IF line > Len(Trace) THEN data' = <<>> /\ nextId' = 0
    ELSE /\ data' = [k \in 1 .. Len(Trace[line].init) |-> [id |-> k, d |-> Trace[line].init[k]]]
         /\ nextId' = Len(Trace[line].init) + 1

Init == /\ l = 1 /\ i = 1
        /\ data = [k \in 1 .. Len(Trace[1].init) |-> [id |-> k, d |-> Trace[1].init[k]]]
        /\ nextId = Len(Trace[1].init) + 1

E == T.events[i]

OutputVerdict ==
    IF data = <<>> THEN IF E.exc = "RuntimeError" THEN "ok" ELSE "output of an empty Concatenate must raise RuntimeError"
    ELSE IF E.exc # "" THEN "output raised " \o E.exc
    ELSE LET o == E.out
             x == M!ConcatenatedOutput(T.pool)
         IN FirstViolated(<< <<"type", o.k = x.k>>,
                             <<"number of channels", o.nc = x.nc>>,
                             <<"shape", o.len = x.len /\ o.nf = x.nf>>,
                             <<"offset", o.off = x.off>>,
                             <<"sampling rate/resolution of the first data set", o.sr = x.sr /\ o.res = x.res>>,
                             <<"labels", o.lab = x.lab>>,
                             <<"samples", o.ch = x.ch>> >>)

OpVerdict == IF E.exc = "" THEN "ok" ELSE E.op \o " raised " \o E.exc

Verdict == IF E.op = "output" THEN OutputVerdict ELSE OpVerdict

NextTrace == l' = l + 1 /\ i' = 1 /\ Load(l + 1)

Step == \/ E.op = "add" /\ M!Add(E.d)
        \/ E.op = "remove" /\ M!Drop(E.id)
        \/ E.op = "replace" /\ M!Substitute(E.id, E.d)
        \/ E.op = "output" /\ M!Output

Next ==
    /\ l <= Len(Trace)
    /\ IF i > Len(T.events) THEN NextTrace
       ELSE LET v == Verdict IN
            /\ Report(l, i, v)
            /\ IF v = "ok" THEN Step /\ i' = i + 1 /\ l' = l ELSE NextTrace

Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter >= Len(Trace)
===============================================================================
