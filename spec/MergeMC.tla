------------------------------- MODULE MergeMC -------------------------------
(* Bounded exhaustive exploration of all histories of the Merge block. The    *)
(* histories are printed, so that they can be replayed on the implementation. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES data, mode, nextId, hist

\* data sets with differing channel counts, lengths and offsets; their samples identify channel and index
MkSignal(n, nc, len, off) ==
    [k |-> "signal", nc |-> nc, nf |-> 1, len |-> len, off |-> off, sr |-> n, res |-> 0,
     lab |-> [c \in 1 .. nc |-> <<n, c>>],
     ch |-> [c \in 1 .. nc |-> [f \in 1 .. 1 |-> [i \in 1 .. len |-> <<100 * n + 10 * c + i, 0>>]]]]

MCPool == << MkSignal(1, 1, 2, 0), MkSignal(2, 2, 1, 3), MkSignal(3, 3, 2, -2) >>

M == INSTANCE Merge

MaxData == 3
Depth == atoi(IOEnv.DEPTH)

vars == <<data, mode, nextId, hist>>

Init == M!MergeInit(<<>>, "FIRST_DATASET_FIRST") /\ hist = <<>>

Log(e) == hist' = Append(hist, e)

Next ==
    /\ Len(hist) < Depth
    /\ \/ \E d \in 1 .. Len(MCPool) : Len(data) < MaxData /\ M!Add(d) /\ Log([op |-> "add", id |-> nextId, d |-> d])
       \/ \E id \in M!Ids : M!Drop(id) /\ Log([op |-> "remove", id |-> id])
       \/ \E id \in M!Ids, d \in 1 .. Len(MCPool) : M!Substitute(id, d) /\ Log([op |-> "replace", id |-> id, d |-> d])
       \/ \E m \in M!Modes \ {mode} : M!SetMode(m) /\ Log([op |-> "mode", mode |-> m])

Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
\* Design properties of the specified output
Out == M!MergedOutput(MCPool)
In == M!CurrentData(MCPool)

WellFormed == data # <<>> => M!IsDataSet(Out)

\* every channel of every data set is in the output exactly once, with its label and its samples at their points in time
ExactlyOnce ==
    Len(data) > 1 =>
        \A i \in 1 .. Len(In) : \A c \in 1 .. In[i].nc :
            Cardinality({j \in 1 .. Out.nc :
                /\ Out.lab[j] = In[i].lab[c]
                /\ \A t \in (Out.off - 1) .. (Out.off + Out.len + 1) : M!At(Out, j, 1, t) = M!At(In[i], c, 1, t)})
            = Cardinality({p \in 1 .. Len(In) : data[p].d = data[i].d})

NumberOfChannels == data # <<>> => Out.nc = M!SumInts([i \in 1 .. Len(In) |-> In[i].nc])

\* in FIRST_CHANNELS_FIRST mode, the channel numbers never decrease; in FIRST_DATASET_FIRST, the labels are just concatenated
ModeOrder ==
    Len(data) > 1 =>
        IF mode = "FIRST_CHANNELS_FIRST" THEN \A j \in 1 .. Out.nc - 1 : Out.lab[j][2] <= Out.lab[j + 1][2]
        ELSE Out.lab = M!FlattenSeq([i \in 1 .. Len(In) |-> In[i].lab])

Inv == WellFormed /\ ExactlyOnce /\ NumberOfChannels /\ ModeOrder

\* prints every complete history
PrintHistory == Len(hist) = Depth => PrintT("@HIST " \o ToJson(hist))
Constraint == PrintHistory
==============================================================================
