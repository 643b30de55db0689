------------------------------- MODULE JackMC -------------------------------
(* Bounded exhaustive exploration of the JACK interface. IOEnv.MENU selects   *)
(* the operations: "ports" (C04) or "audio" (C03).                            *)
EXTENDS Jack, Json, IOUtils

VARIABLES s, hist, played, received

Mk(nc, len, off, lab) == [nc |-> nc, len |-> len, off |-> off, lab |-> lab,
                          ch |-> [c \in 1 .. nc |-> <<[i \in 1 .. len |-> <<10 * c + i, 0>>]>>]]

Pool == << Mk(2, 3, 0, <<"x", "in">>), Mk(1, 5, -4, <<"in">>), Mk(3, 4, 2, <<"", "x", "x">>), Mk(1, 0, 0, <<"out">>), Mk(2, 1, 7, <<"output_2", "">>) >>

Audio == IOEnv.MENU = "audio"
Depth == atoi(IOEnv.DEPTH)
vars == <<s, hist, played, received>>

Ins0 == IF Audio THEN <<"r1", "r2">> ELSE <<"in", "a">>
\* in the audio menu, an own loop and a connection from outside have been requested at the beginning
Loops == IF Audio THEN {<<Own(1), Own(1)>>, <<<<"ext", "ext:out">>, Own(2)>>} ELSE {}

Init == \E auto \in BOOLEAN, k \in (IF Audio THEN 1 .. Len(Pool) ELSE {1}) :
    /\ s = [Initial(Pool, k, Ins0, Names(Pool[k].lab, Ins0), auto) EXCEPT !.wanted = Loops]
    /\ hist = << [op |-> "init", sig |-> k, auto |-> auto, ins |-> Ins0] >>
    /\ played = <<>> /\ received = <<>>

Log(e) == hist' = Append(hist, e)
Keep == UNCHANGED <<played, received>>
Do(new, e) == s' = new /\ Log(e) /\ Keep

\* what the ports receive in the n-th cycle (arbitrary, but distinguishable)
Inp(frames) == [k \in 1 .. Len(s.ins) |-> [j \in 1 .. frames |-> 1000 * k + 10 * Len(hist) + j]]

Sources == {Own(1), Own(2), <<"ext", "ext:out">>}
Targets == {Own(1), Own(2), <<"ext", "ext:in">>}
Exists(a, b) == /\ (IsOwn(a) => a[2] <= Len(s.outs))
                /\ (IsOwn(b) => b[2] <= Len(s.ins))
                /\ (IsOwn(a) \/ IsOwn(b))

RECURSIVE RunFrom(_, _)
RunFrom(t, n) == IF n = 0 THEN t ELSE RunFrom(Cycle(t, Pool, 2, [k \in 1 .. Len(t.ins) |-> <<0, 0>>]), n - 1)

Ports ==
    \/ \E a \in Sources, b \in Targets :
          Exists(a, b) /\ <<a, b>> \notin s.wanted /\ Do(Connect(s, a, b), [op |-> "connect", a |-> a, b |-> b])
    \/ \E c \in s.wanted : s.active /\ Do(Disconnect(s, c[1], c[2]), [op |-> "disconnect", a |-> c[1], b |-> c[2]])
    \/ \E n \in {"b"} : Len(s.ins) < 3 /\ n \notin {s.ins[j] : j \in 1 .. Len(s.ins)}
          /\ n \notin {s.outs[j] : j \in 1 .. Len(s.outs)} /\ Do(AddIn(s, n), [op |-> "add", name |-> n])
    \/ \E j \in 1 .. Len(s.ins) : Do(RemoveIn(s, j), [op |-> "remove", i |-> j])
    \/ \E k \in {2, 3} : k # s.sig /\ Do(SetInput(s, k, Names(Pool[k].lab, s.ins)), [op |-> "input", sig |-> k])
    \/ ~s.active /\ Do(Activate(s), [op |-> "activate"])
    \/ s.active /\ Do(Deactivate(s), [op |-> "deactivate"])
    \/ Do(SetAuto(s, ~s.auto), [op |-> "auto", auto |-> ~s.auto])
    \/ Do(RunFrom(Start(s, Pool), 6), [op |-> "run"])

Play ==
    \/ s' = Start(s, Pool) /\ Log([op |-> "start"]) /\ played' = <<>> /\ received' = <<>>
    \/ \E f \in 1 .. 4 :
          /\ s' = Cycle(s, Pool, f, Inp(f)) /\ Log([op |-> "cycle", frames |-> f])
          /\ IF s.active THEN /\ played' = played \o Playback(s, Pool, f, 1)
                              /\ received' = received \o Inp(f)[1] ELSE Keep
    \/ s.phase = "idle" /\ s.ever /\ Do(s, [op |-> "output"])
    \/ s.phase = "running" /\ s.ever /\ Do(s, [op |-> "output"])
    \/ \E k \in {1, 2} : s.phase = "idle" /\ k # s.sig /\ s' = SetInput(s, k, Names(Pool[k].lab, s.ins))
           /\ Log([op |-> "input", sig |-> k]) /\ played' = <<>> /\ received' = <<>>

Next == Len(hist) <= Depth /\ IF Audio THEN Play ELSE Ports
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
NamesInv == Len(s.outs) = Pool[s.sig].nc /\ RefersToPorts(s)
            /\ \A i, j \in 1 .. Len(s.outs) : i # j => s.outs[i] # s.outs[j]

\* every sample is played exactly once, in order and followed by silence
ExactlyOnce ==
    (Audio /\ s.ever /\ s.phase # "idle") =>
        /\ Len(played) >= s.idx
        /\ \A k \in 1 .. Len(played) : played[k] = IF k <= s.idx THEN Pool[s.sig].ch[1][1][k][1] ELSE 0
        /\ (s.phase = "drained" => s.idx = Pool[s.sig].len)

\* the recording consists of the samples, that have been received at the same positions
RecordedAtSamePosition ==
    (Audio /\ s.ever /\ s.phase # "idle") => s.rec.ch[1] = SubSeq(received, 1, s.idx)

Complete == (s.ever /\ s.phase = "idle") => \A k \in DOMAIN s.rec.ch : Len(s.rec.ch[k]) = s.rec.len

Inv == NamesInv /\ ExactlyOnce /\ RecordedAtSamePosition /\ Complete
Constraint == Len(hist) = Depth + 1 => PrintT("@HIST " \o ToJson(hist))
=============================================================================
