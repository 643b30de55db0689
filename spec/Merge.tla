-------------------------------- MODULE Merge --------------------------------
(* The Merge block: an ordered collection of data sets and a mode, whose      *)
(* output is a function of both.                                              *)
EXTENDS Collection

VARIABLES mode

Modes == {"FIRST_DATASET_FIRST", "FIRST_CHANNELS_FIRST"}
mergeVars == <<data, nextId, mode>>

MergeInit(initial, m) == CollectionInit(initial) /\ mode = m

Add(d) == AddData(d) /\ UNCHANGED mode
Drop(id) == RemoveData(id) /\ UNCHANGED mode
Substitute(id, d) == ReplaceData(id, d) /\ UNCHANGED mode
SetMode(m) == mode' = m /\ UNCHANGED <<data, nextId>>
Output == UNCHANGED mergeVars

------------------------------------------------------------------------------
\* the order of the channels: a sequence of <<position of the data set, channel>>
Before(m, p, q) ==
    IF m = "FIRST_DATASET_FIRST"
    THEN p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
    ELSE p[2] < q[2] \/ (p[2] = q[2] /\ p[1] < q[1])

ChannelOrder(ds, m) ==
    SetToSortSeq(UNION {{<<i, c>> : c \in 1 .. ds[i].nc} : i \in 1 .. Len(ds)}, LAMBDA p, q : Before(m, p, q))

\* the merged data set of a non-empty sequence of data sets
MergeOf(ds, m) ==
    IF Len(ds) = 1 THEN ds[1]
    ELSE LET order == ChannelOrder(ds, m)
             off   == MinSet({Start(ds[i]) : i \in 1 .. Len(ds)})
             len   == MaxSet({Stop(ds[i]) : i \in 1 .. Len(ds)}) - off
             nf    == MaxSet({ds[i].nf : i \in 1 .. Len(ds)})
         IN [k |-> ds[1].k, nc |-> Len(order), nf |-> nf, len |-> len, off |-> off,
             sr |-> ds[1].sr, res |-> ds[1].res,
             lab |-> [j \in 1 .. Len(order) |-> ds[order[j][1]].lab[order[j][2]]],
             ch |-> Build(Len(order), nf, len,
                          LAMBDA j, f, i : At(ds[order[j][1]], order[j][2], f, off + i - 1))]

MergedOutput(pool) == MergeOf(CurrentData(pool), mode)
==============================================================================
