-------------------------------- MODULE Jack --------------------------------
(* The interface to the JACK Audio Connection Kit (properties C03 and C04).   *)
(*                                                                            *)
(* The state is a record                                                      *)
(*   active  TRUE, if the JACK client is active                               *)
(*   auto    TRUE, if it is deactivated automatically after a recording       *)
(*   sig     the index of the input signal in the pool                        *)
(*   outs    the short names of the output ports                              *)
(*   ins     the short names of the input ports                               *)
(*   wanted  the set of connections <<source, destination>>, that have been   *)
(*           requested and not been removed. A port is <<"own", index>> or    *)
(*           <<"ext", full name>>.                                            *)
(*   phase   "idle", "running" (samples have still to be processed), "drained"*)
(*           (all samples have been processed, but the recording may not have *)
(*           been declared finished, yet) or "dead" (the server has gone)     *)
(*   idx     the number of samples, that have been processed                  *)
(*   rec     the recording: off, lab and the recorded channels ch             *)
(*   ever    TRUE, if there has been a recording                              *)
(*   xruns   the number of xruns                                              *)
(* Each operation is a function of this state.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Own(i) == <<"own", i>>
IsOwn(p) == p[1] = "own"

Initial(pool, k, ins, outs, auto) ==
    [active |-> ~auto, auto |-> auto, sig |-> k, outs |-> outs, ins |-> ins, wanted |-> {}, phase |-> "idle",
     idx |-> 0, rec |-> [off |-> 0, lab |-> <<>>, ch |-> <<>>, len |-> 0], ever |-> FALSE, xruns |-> 0]

-----------------------------------------------------------------------------
(* names of the output ports *)

\* the label is a usable name for the i-th port
Usable(lab, names, ins, i) ==
    /\ lab[i] # ""
    /\ \A j \in 1 .. Len(ins) : ins[j] # lab[i]
    /\ \A j \in 1 .. i - 1 : names[j] # lab[i] /\ lab[j] # lab[i]

NamesOk(names, lab, ins) ==
    /\ Len(names) = Len(lab)
    /\ \A i, j \in 1 .. Len(names) : i # j => names[i] # names[j]
    /\ \A i \in 1 .. Len(names), j \in 1 .. Len(ins) : names[i] # ins[j]
    /\ \A i \in 1 .. Len(names) : Usable(lab, names, ins, i) => names[i] = lab[i]

\* one function, that fulfils NamesOk
RECURSIVE Fresh(_, _)
Fresh(name, used) == IF name \in used THEN Fresh(name \o "_", used) ELSE name
RECURSIVE NamesFrom(_, _, _)
NamesFrom(lab, i, used) ==
    IF i > Len(lab) THEN <<>>
    ELSE LET n == IF lab[i] # "" /\ lab[i] \notin used THEN lab[i] ELSE Fresh("output_" \o ToString(i), used)
         IN <<n>> \o NamesFrom(lab, i + 1, used \cup {n})
Names(lab, ins) == NamesFrom(lab, 1, {ins[j] : j \in 1 .. Len(ins)})

-----------------------------------------------------------------------------
(* connections *)

SrcName(s, client, p) == IF IsOwn(p) THEN client \o ":" \o s.outs[p[2]] ELSE p[2]
DstName(s, client, p) == IF IsOwn(p) THEN client \o ":" \o s.ins[p[2]] ELSE p[2]
Established(s, client) == {<<SrcName(s, client, c[1]), DstName(s, client, c[2])>> : c \in s.wanted}

RefersToPorts(s) == \A c \in s.wanted : /\ (IsOwn(c[1]) => c[1][2] \in 1 .. Len(s.outs))
                                        /\ (IsOwn(c[2]) => c[2][2] \in 1 .. Len(s.ins))

Connect(s, a, b) == [s EXCEPT !.wanted = @ \cup {<<a, b>>}]
\* done by another client, which only works for active clients
Disconnect(s, a, b) == [s EXCEPT !.wanted = @ \ {<<a, b>>}]

AddIn(s, name) == [s EXCEPT !.ins = Append(@, name)]
RemoveIn(s, i) ==
    [s EXCEPT !.ins = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@)),
              !.wanted = {IF IsOwn(c[2]) /\ c[2][2] > i THEN <<c[1], Own(c[2][2] - 1)>> ELSE c
                          : c \in {w \in @ : w[2] # Own(i)}}]

\* the recording must not be in progress, when the signal is changed; names: the names of the ports afterwards
SetInput(s, k, names) ==
    [s EXCEPT !.sig = k, !.outs = names,
              !.wanted = {c \in @ : IsOwn(c[1]) => c[1][2] <= Len(names)}]

-----------------------------------------------------------------------------
(* activation *)

Activate(s) == [s EXCEPT !.active = TRUE]
Deactivate(s) == [s EXCEPT !.active = FALSE]
SetAuto(s, auto) == [s EXCEPT !.auto = auto, !.active = IF auto THEN FALSE ELSE @]

\* a waiting method has returned
Finished(s) == IF s.phase = "drained" THEN [s EXCEPT !.phase = "idle", !.active = IF s.auto THEN FALSE ELSE @] ELSE s

-----------------------------------------------------------------------------
(* playback and recording *)

Start(s, pool) ==
    [s EXCEPT !.active = TRUE, !.idx = 0, !.ever = TRUE,
              !.phase = IF pool[s.sig].len = 0 THEN "drained" ELSE "running",
              !.rec = [off |-> pool[s.sig].off, lab |-> s.ins, ch |-> [k \in 1 .. Len(s.ins) |-> <<>>], len |-> pool[s.sig].len]]

\* the samples, that have to be put out on the c-th output port during a block
Playback(s, pool, frames, c) ==
    [k \in 1 .. frames |-> IF s.phase = "running" /\ s.idx + k <= pool[s.sig].len THEN pool[s.sig].ch[c][1][s.idx + k][1] ELSE 0]

\* the server processes a block; inp: the samples, that the input ports receive
Cycle(s, pool, frames, inp) ==
    IF ~s.active THEN s
    ELSE IF s.phase = "running" THEN
        LET n == IF frames < pool[s.sig].len - s.idx THEN frames ELSE pool[s.sig].len - s.idx
        IN [s EXCEPT !.idx = @ + n,
                     !.phase = IF s.idx + n = pool[s.sig].len THEN "drained" ELSE "running",
                     !.rec.ch = [k \in DOMAIN @ |-> @[k] \o SubSeq(inp[k], 1, n)]]
    ELSE Finished(s)

Shutdown(s) == [s EXCEPT !.phase = "dead", !.active = FALSE]
Xrun(s) == [s EXCEPT !.xruns = @ + 1]
=============================================================================
