------------------------------- MODULE Network -------------------------------
(* A network of connected blocks. The outputs of the blocks are functions of  *)
(* the graph and of the data, that the sources currently have: it does not    *)
(* matter, in which order the connections and changes have been made (except  *)
(* for the order of the entries of a block) or which outputs have been        *)
(* requested before.                                                          *)
EXTENDS DataSets, SequencesExt, TLC

VARIABLES net       \* sequence of nodes [kind, d, mode, entries]: sources ("src") have data, blocks ("merge", "concat") have
                    \* entries [id, from, ref], that either hold data themselves ("data") or get it from another node ("node")

M == INSTANCE Merge WITH data <- <<>>, nextId <- 0, mode <- ""
C == INSTANCE Concatenate WITH data <- <<>>, nextId <- 0

Node(kind, d, mode, entries) == [kind |-> kind, d |-> d, mode |-> mode, entries |-> entries]
Entry(id, from, ref) == [id |-> id, from |-> from, ref |-> ref]

Nodes == DOMAIN net
Blocks(g) == {n \in DOMAIN g : g[n].kind # "src"}
Inputs(g, n) == {g[n].entries[e].ref : e \in {x \in DOMAIN g[n].entries : g[n].entries[x].from = "node"}}

RECURSIVE Upstream(_, _)
Upstream(g, n) == {n} \union UNION {Upstream(g, m) : m \in Inputs(g, n)}

IndexOf(g, n, id) == CHOOSE e \in DOMAIN g[n].entries : g[n].entries[e].id = id
EntryIds(g, n) == {g[n].entries[e].id : e \in DOMAIN g[n].entries}

\* the output of a node: a sequence with the data set or an empty sequence, if it cannot be computed
RECURSIVE OutputOf(_, _, _)
OutputOf(g, pool, n) ==
    IF g[n].kind = "src" THEN <<pool[g[n].d]>>
    ELSE LET es  == g[n].entries
             ins == [e \in DOMAIN es |-> IF es[e].from = "data" THEN <<pool[es[e].ref]>> ELSE OutputOf(g, pool, es[e].ref)]
         IN IF es = <<>> \/ (\E e \in DOMAIN es : ins[e] = <<>>) THEN <<>>
            ELSE LET ds == [e \in DOMAIN es |-> ins[e][1]]
                 IN IF g[n].kind = "merge" THEN <<M!MergeOf(ds, g[n].mode)>> ELSE <<C!ConcatenateOf(ds)>>

\* every block, that is connected to another one, can compute its output (how exceptions travel through a network is up to
\* the connectors package)
Complete(g, n) == \A m \in Upstream(g, n) : g[m].kind = "src" \/ g[m].entries # <<>>
Fed(g) == \A n \in Blocks(g) : \A m \in Inputs(g, n) : Complete(g, m)

SetSource(n, d) == net[n].kind = "src" /\ net' = [net EXCEPT ![n].d = d]
SetMode(b, m) == net[b].kind = "merge" /\ net' = [net EXCEPT ![b].mode = m]
AddData(b, id, d) ==
    b \in Blocks(net) /\ id \notin EntryIds(net, b) /\ net' = [net EXCEPT ![b].entries = Append(@, Entry(id, "data", d))]
RemoveEntry(b, id) ==
    id \in EntryIds(net, b) /\ net' = [net EXCEPT ![b].entries = RemoveAt(@, IndexOf(net, b, id))]
ReplaceEntry(b, id, d) ==
    id \in EntryIds(net, b) /\ net' = [net EXCEPT ![b].entries[IndexOf(net, b, id)].ref = d]
ConnectNode(b, id, n) ==
    /\ b \in Blocks(net) /\ b \notin Upstream(net, n) /\ n \notin Inputs(net, b)
    /\ net' = [net EXCEPT ![b].entries = Append(@, Entry(id, "node", n))]
Request == UNCHANGED net
==============================================================================
