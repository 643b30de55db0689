---------------------------- MODULE ConcatenateMC ----------------------------
(* Bounded exhaustive exploration of all histories of the Concatenate block.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES data, nextId, hist

MkSignal(n, nc, len, off) ==
    [k |-> "signal", nc |-> nc, nf |-> 1, len |-> len, off |-> off, sr |-> n, res |-> 0,
     lab |-> [c \in 1 .. nc |-> "x"],
     ch |-> [c \in 1 .. nc |-> [f \in 1 .. 1 |-> [i \in 1 .. len |-> <<100 * n + 10 * c + i, 0>>]]]]

\* no offset; short and nested in its predecessors; long, with a gap and more channels
MCPool == << MkSignal(1, 1, 3, 0), MkSignal(2, 2, 1, -2), MkSignal(3, 3, 2, 1), MkSignal(4, 1, 4, -5) >>

C == INSTANCE Concatenate

MaxData == 4
Depth == atoi(IOEnv.DEPTH)
vars == <<data, nextId, hist>>

Init == C!CollectionInit(<<>>) /\ hist = <<>>
Log(e) == hist' = Append(hist, e)

Next ==
    /\ Len(hist) < Depth
    /\ \/ \E d \in 1 .. Len(MCPool) : Len(data) < MaxData /\ C!Add(d) /\ Log([op |-> "add", id |-> nextId, d |-> d])
       \/ \E id \in C!Ids : C!Drop(id) /\ Log([op |-> "remove", id |-> id])
       \/ \E id \in C!Ids, d \in 1 .. Len(MCPool) : C!Substitute(id, d) /\ Log([op |-> "replace", id |-> id, d |-> d])

Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
Out == C!ConcatenatedOutput(MCPool)
In == C!CurrentData(MCPool)

WellFormed == data # <<>> => C!IsDataSet(Out)

\* no sample is lost: the sum over all samples is preserved per channel
TotalOf(d, c) == C!SumPairs([i \in 1 .. d.len |-> d.ch[c][1][i]])
SumPreserved ==
    data # <<>> => \A c \in 1 .. Out.nc :
        TotalOf(Out, c) = C!SumPairs([i \in 1 .. Len(In) |-> IF c <= In[i].nc THEN TotalOf(In[i], c) ELSE <<0, 0>>])

\* without offsets, the concatenation is the plain concatenation
Plain == (Len(data) > 1 /\ \A i \in 1 .. Len(In) : In[i].off = 0) =>
    Out.ch[1][1] = C!FlattenSeq([i \in 1 .. Len(In) |-> In[i].ch[1][1]])

\* the first and the last index are covered
Tight == Len(data) > 1 =>
    LET starts == [i \in 1 .. Len(In) |-> C!StartOf(In, i)]
    IN /\ \E i \in 1 .. Len(In) : starts[i] = Out.off
       /\ \E i \in 1 .. Len(In) : starts[i] + In[i].len = Out.off + Out.len

Inv == WellFormed /\ SumPreserved /\ Plain /\ Tight
Constraint == Len(hist) = Depth => PrintT("@HIST " \o ToJson(hist))
==============================================================================
