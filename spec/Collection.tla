----------------------------- MODULE Collection -----------------------------
(* The ordered collection of data sets, that Merge and Concatenate manage:   *)
(* add returns a new id, replace keeps the position, remove forgets the id.  *)
EXTENDS DataSets, SequencesExt, TLC

VARIABLES data,   \* the data sets in their order of addition: sequence of [id, d], where d is an index in a pool of data sets
          nextId

CollectionOf(initial) == [i \in 1 .. Len(initial) |-> [id |-> i, d |-> initial[i]]]

CollectionInit(initial) == data = CollectionOf(initial) /\ nextId = Len(initial) + 1

IndexOf(id) == CHOOSE i \in DOMAIN data : data[i].id = id
Ids == {data[i].id : i \in DOMAIN data}

AddData(d) == data' = Append(data, [id |-> nextId, d |-> d]) /\ nextId' = nextId + 1
RemoveData(id) == id \in Ids /\ data' = RemoveAt(data, IndexOf(id)) /\ UNCHANGED nextId
ReplaceData(id, d) == id \in Ids /\ data' = [data EXCEPT ![IndexOf(id)].d = d] /\ UNCHANGED nextId

CurrentData(pool) == [i \in 1 .. Len(data) |-> pool[data[i].d]]
=============================================================================
