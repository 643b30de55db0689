------------------------------ MODULE NetworkMC ------------------------------
(* Bounded exhaustive exploration of the histories of a network of two        *)
(* sources, two Merge blocks and a Concatenate block. The histories are       *)
(* printed, so that they can be replayed on the implementation.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES net, hist, first

N == INSTANCE Network

MkSignal(n, nc, len, off) ==
    [k |-> "signal", nc |-> nc, nf |-> 1, len |-> len, off |-> off, sr |-> n, res |-> 0,
     lab |-> [c \in 1 .. nc |-> ToString(<<n, c>>)],
     ch |-> [c \in 1 .. nc |-> [f \in 1 .. 1 |-> [i \in 1 .. len |-> <<100 * n + 10 * c + i, 0>>]]]]
MCPool == << MkSignal(1, 1, 2, 0), MkSignal(2, 2, 1, 3), MkSignal(3, 2, 2, -2) >>

Depth == atoi(IOEnv.DEPTH)
Src(d) == N!Node("src", d, "", <<>>)
Merge(entries) == N!Node("merge", 0, "FIRST_DATASET_FIRST", entries)
Concat(entries) == N!Node("concat", 0, "", entries)
From(id, n) == N!Entry(id, "node", n)
Held(id, d) == N!Entry(id, "data", d)

\* the wirings, from which the histories start: (a) a diamond, (b) a chain, (c) nothing is connected
Starts == << <<Src(1), Src(2), Merge(<<From(1, 1), Held(2, 3)>>), Concat(<<From(1, 3), From(2, 2)>>), Merge(<<From(1, 4), From(2, 3)>>)>>,
             <<Src(1), Src(2), Merge(<<Held(1, 3)>>), Concat(<<From(1, 3)>>), Merge(<<From(1, 4), From(2, 1)>>)>>,
             <<Src(2), Src(3), Merge(<<>>), Concat(<<>>), Merge(<<>>)>> >>

vars == <<net, hist, first>>

Init == /\ first \in 1 .. Len(Starts) /\ net = Starts[first] /\ hist = <<>>

Log(e) == hist' = Append(hist, e) /\ UNCHANGED first
\* ids, that have never been used in this history
NewId == 10 + Len(hist)
Outs(g) == [n \in DOMAIN g |-> N!OutputOf(g, MCPool, n)]

Next ==
    /\ Len(hist) < Depth
    /\ \/ \E n \in 1 .. 2, d \in 1 .. 2 : net[n].d # d /\ N!SetSource(n, d) /\ Log([op |-> "source", n |-> n, d |-> d])
       \/ \E n \in {3, 5} : N!SetMode(n, "FIRST_CHANNELS_FIRST") /\ net' # net /\ Log([op |-> "mode", n |-> n, mode |-> "FIRST_CHANNELS_FIRST"])
       \/ \E n \in 3 .. 5 : N!AddData(n, NewId, 2) /\ Log([op |-> "add", n |-> n, id |-> NewId, d |-> 2])
       \/ \E n \in 3 .. 5 : \E id \in N!EntryIds(net, n) :
             LET e == net[n].entries[N!IndexOf(net, n, id)] IN
             \/ N!RemoveEntry(n, id) /\ Log([op |-> IF e.from = "data" THEN "remove" ELSE "disconnect", n |-> n, id |-> id])
             \/ e.from = "data" /\ N!ReplaceEntry(n, id, 1) /\ net' # net /\ Log([op |-> "replace", n |-> n, id |-> id, d |-> 1])
       \/ \E n \in 3 .. 5, m \in 1 .. 5 : N!ConnectNode(n, NewId, m) /\ Log([op |-> "connect", n |-> n, id |-> NewId, d |-> m])
    /\ N!Fed(net')

Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Acyclic == \A n \in DOMAIN net : \A m \in N!Inputs(net, n) : n \notin N!Upstream(net, m)
UniqueIds == \A n \in DOMAIN net : Cardinality(N!EntryIds(net, n)) = Len(net[n].entries)
\* the outputs are well formed; there is no output exactly for those blocks, that depend on an empty one
WellFormed == \A n \in DOMAIN net : LET o == N!OutputOf(net, MCPool, n) IN
                 /\ (o = <<>>) <=> \E m \in N!Upstream(net, n) : net[m].kind # "src" /\ net[m].entries = <<>>
                 /\ o # <<>> => N!M!IsDataSet(o[1])
Inv == Acyclic /\ UniqueIds /\ WellFormed

\* a change of a node only affects those, that depend on it
Local == [][\A n \in DOMAIN net : (\A m \in N!Upstream(net, n) : net'[m] = net[m]) =>
                N!OutputOf(net', MCPool, n) = N!OutputOf(net, MCPool, n)]_vars

PrintHistory == Len(hist) = Depth => PrintT("@HIST " \o ToJson([first |-> first, hist |-> hist]))
PrintStarts == hist = <<>> /\ first = 1 => PrintT("@NETS " \o ToJson(Starts))
Constraint == PrintHistory /\ PrintStarts
==============================================================================
