----------------------------- MODULE NetworkTrace -----------------------------
(* Validates recorded executions of networks of blocks. A trace is            *)
(*   [pool |-> data sets, net |-> nodes, events |-> events]                   *)
EXTENDS TraceLib

VARIABLES l, i, net

T == Trace[l]
N == INSTANCE Network

vars == <<l, i, net>>
E == T.events[i]

FirstNet(line) == IF line > Len(Trace) THEN <<>> ELSE Trace[line].net

Init == l = 1 /\ i = 1 /\ net = FirstNet(1)

OutputVerdict ==
    LET w == N!OutputOf(net, T.pool, E.n)
        o == E.out
    IN IF w = <<>> THEN IF E.exc = "RuntimeError" THEN "ok" ELSE "an output, that depends on an empty block, must raise a RuntimeError"
       ELSE IF E.exc # "" THEN "output raised " \o E.exc
       ELSE LET x == w[1] IN
            FirstViolated(<< <<"output: type", o.k = x.k>>,
                             <<"output: shape", o.nc = x.nc /\ o.len = x.len /\ o.nf = x.nf>>,
                             <<"output: offset", o.off = x.off>>,
                             <<"output: sampling rate/resolution", o.sr = x.sr /\ o.res = x.res>>,
                             <<"output: labels", o.lab = x.lab>>,
                             <<"output: samples", o.ch = x.ch>> >>)

Verdict == CASE E.op = "output" -> OutputVerdict
             [] OTHER -> IF E.exc = "" THEN "ok" ELSE E.op \o " raised " \o E.exc

Step == \/ E.op = "source" /\ N!SetSource(E.n, E.d)
        \/ E.op = "mode" /\ N!SetMode(E.n, E.mode)
        \/ E.op = "add" /\ N!AddData(E.n, E.id, E.d)
        \/ E.op \in {"remove", "disconnect"} /\ N!RemoveEntry(E.n, E.id)
        \/ E.op = "replace" /\ N!ReplaceEntry(E.n, E.id, E.d)
        \/ E.op = "connect" /\ N!ConnectNode(E.n, E.id, E.d)
        \/ E.op = "output" /\ N!Request

NextTrace == l' = l + 1 /\ i' = 1 /\ net' = FirstNet(l + 1)

Next ==
    /\ l <= Len(Trace)
    /\ IF i > Len(T.events) THEN NextTrace
       ELSE LET v == Verdict IN
            /\ Report(l, i, v)
            /\ IF v = "ok" THEN Step /\ i' = i + 1 /\ l' = l ELSE NextTrace

Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter >= Len(Trace)
===============================================================================
