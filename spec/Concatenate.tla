----------------------------- MODULE Concatenate -----------------------------
(* The Concatenate block: an ordered collection of signals or spectrograms,   *)
(* whose output is the overlap-add of all of them.                            *)
EXTENDS Collection

Add(d) == AddData(d)
Drop(id) == RemoveData(id)
Substitute(id, d) == ReplaceData(id, d)
Output == UNCHANGED <<data, nextId>>

------------------------------------------------------------------------------
\* each data set starts at the end of its predecessor plus its own offset
RECURSIVE StartOf(_, _)
StartOf(ds, i) == (IF i = 1 THEN 0 ELSE StartOf(ds, i - 1) + ds[i - 1].len) + ds[i].off

\* the sum of the samples, that all data sets have at the index t of the concatenation
SumAt(ds, starts, c, f, t) ==
    SumPairs([i \in 1 .. Len(ds) |-> At([ds[i] EXCEPT !.off = starts[i]], c, f, t)])

ConcatenationLabel(c) == "Concatenation " \o ToString(c)

ConcatenateOf(ds) ==
    IF Len(ds) = 1 THEN ds[1]
    ELSE LET starts == [i \in 1 .. Len(ds) |-> StartOf(ds, i)]
             off == MinSet({starts[i] : i \in 1 .. Len(ds)})
             len == MaxSet({starts[i] + ds[i].len : i \in 1 .. Len(ds)}) - off
             nc  == MaxSet({ds[i].nc : i \in 1 .. Len(ds)})
             nf  == MaxSet({ds[i].nf : i \in 1 .. Len(ds)})
             \* the sum of all data sets, restricted to those, that cover channel, bin and time
         IN [k |-> ds[1].k, nc |-> nc, nf |-> nf, len |-> len, off |-> off, sr |-> ds[1].sr, res |-> ds[1].res,
             lab |-> [c \in 1 .. nc |-> ConcatenationLabel(c)],
             ch |-> Build(nc, nf, len, LAMBDA c, f, i : SumAt(ds, starts, c, f, off + i - 1))]

ConcatenatedOutput(pool) == ConcatenateOf(CurrentData(pool))
==============================================================================
