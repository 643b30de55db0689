------------------------------ MODULE JackTrace ------------------------------
(* Validates recorded executions of sumpf.Jack on a JACK server, whose cycles *)
(* are controlled by the harness. A trace is                                  *)
(*   [pool, client, init |-> [sig, auto, ins, outs], events]                  *)
(* "call" and "return" are the beginning and the end of a call of a method,   *)
(* that may have to wait. "midcycle" is a cycle of the server, that has run   *)
(* during a call of start: it belongs either to the time before the start or  *)
(* to the recording, which can be seen from the samples, that are put out.    *)
EXTENDS TraceLib, FiniteSets

J == INSTANCE Jack
VARIABLES l, i, s,
          begun    \* the call of start, that is being executed, has already started the recording
vars == <<l, i, s, begun>>

T == Trace[l]
E == T.events[i]
P == T.pool

Load(line) == IF line > Len(Trace) THEN [end |-> TRUE]
              ELSE LET t == Trace[line].init IN J!Initial(Trace[line].pool, t.sig, t.ins, t.outs, t.auto)

Init == l = 1 /\ i = 1 /\ s = Load(1) /\ begun = FALSE

Range(q) == {q[k] : k \in DOMAIN q}

Silence == \A c \in 1 .. Len(E.out) : \A k \in 1 .. Len(E.out[c]) : E.out[c][k] = 0
Begins == ~begun /\ E.called /\ ~Silence

NewState ==
    CASE E.op = "init" -> s
      [] E.op = "connect" -> J!Connect(s, E.a, E.b)
      [] E.op = "badconnect" -> s
      [] E.op = "disconnect" -> J!Disconnect(s, E.a, E.b)
      [] E.op = "add" -> J!AddIn(s, E.name)
      [] E.op = "remove" -> J!RemoveIn(s, E.i)
      [] E.op = "activate" -> J!Activate(s)
      [] E.op = "deactivate" -> J!Deactivate(s)
      [] E.op = "start" -> IF begun THEN s ELSE J!Start(s, P)
      [] E.op = "midcycle" -> IF Begins THEN J!Cycle(J!Start(s, P), P, E.frames, E.inp)
                              ELSE IF begun THEN J!Cycle(s, P, E.frames, E.inp) ELSE s
      [] E.op = "cycle" -> J!Cycle(s, P, E.frames, E.inp)
      [] E.op = "shutdown" -> J!Shutdown(s)
      [] E.op = "xrun" -> J!Xrun(s)
      [] E.op = "samplerate" -> s
      [] E.op = "call" -> s
      [] E.op = "return" ->
            LET f == J!Finished(s)
            IN CASE E.name = "output" -> f
                 [] E.name = "input" -> J!SetInput(f, E.sig, E.outs)
                 [] E.name = "auto" -> J!SetAuto(IF E.auto THEN f ELSE s, E.auto)
                 [] OTHER -> f
      [] OTHER -> s

OutputVerdict ==
    IF ~s.ever \/ s.phase = "dead" THEN "ok"
    ELSE FirstViolated(<<
        <<"the recording has one channel per input port", E.out.nc = Len(s.rec.ch)>>,
        <<"the recording has the length of the played signal", E.out.len = s.rec.len>>,
        <<"the recording has the offset of the played signal", E.out.off = s.rec.off>>,
        <<"the channels of the recording are labelled with the names of the input ports", E.out.nc = 0 \/ E.out.lab = s.rec.lab>>,
        <<"the recording has the sampling rate of the server", E.out.sr = E.samplerate>>,
        <<"the recording consists of the received samples", E.out.nc = Len(s.rec.ch) /\ E.out.len = s.rec.len =>
            \A c \in 1 .. Len(s.rec.ch) : [k \in 1 .. Len(s.rec.ch[c]) |-> <<s.rec.ch[c][k], 0>>] = E.out.ch[c][1]>> >>)

MidVerdict ==
    IF ~E.called THEN "ok"
    ELSE LET n == IF Begins THEN J!Start(s, P) ELSE s
         IN IF ~begun /\ ~Begins THEN "ok"
            ELSE FirstViolated(<<
                <<"one output port per channel", Len(E.out) = P[n.sig].nc>>,
                <<"a recording, that is being started, begins with the first sample",
                    Len(E.out) = P[n.sig].nc => \A c \in 1 .. P[n.sig].nc : E.out[c] = J!Playback(n, P, E.frames, c)>> >>)

CycleVerdict ==
    IF s.phase = "drained" /\ s.auto /\ ~E.called THEN "ok"
    ELSE IF E.called # s.active THEN (IF E.called THEN "the client is active, though it has been deactivated" ELSE "the client is not active")
    ELSE IF ~E.called THEN "ok"
    ELSE FirstViolated(<<
        <<"one output port per channel", Len(E.out) = P[s.sig].nc>>,
        <<"every sample is played exactly once and followed by silence",
            Len(E.out) = P[s.sig].nc => \A c \in 1 .. P[s.sig].nc : E.out[c] = J!Playback(s, P, E.frames, c)>> >>)

ReturnVerdict ==
    \* only disabling the automatic deactivation does not have to wait
    IF E.name = "auto" /\ ~E.auto THEN "ok"
    ELSE IF s.phase = "running" THEN E.name \o " returned before the recording was finished"
    ELSE IF E.name = "output" THEN OutputVerdict ELSE "ok"

XrunVerdict ==
    FirstViolated(<<
        <<"the xruns are counted", E.count = s.xruns + 1>>,
        <<"the delay of the xrun in seconds", E.delay = E.usecs>>,
        <<"the samples, that are affected by the xrun", s.phase = "running" => E.start = s.idx /\ E.stop = s.idx + E.frames>> >>)

\* what can be seen in the JACK server after the operation
ObservationVerdict(n) ==
    IF E.op \in {"call", "shutdown"} \/ n.phase = "dead" \/ "outs" \notin DOMAIN E THEN "ok"
    ELSE IF E.ins # n.ins THEN "the input ports are the added and not removed ones"
    ELSE IF E.listed # n.ins THEN "input_ports returns the names of the input ports"
    ELSE IF ~ (IF E.op \in {"init"} \/ (E.op = "return" /\ E.name = "input")
               THEN J!NamesOk(E.outs, P[n.sig].lab, n.ins) ELSE E.outs = n.outs)
         THEN "the output ports correspond to the channels of the input signal"
    ELSE LET conn == Range(E.conn)
             est == J!Established(n, T.client)
         IN FirstViolated(<<
                <<"connections are not duplicated", Cardinality(conn) = Len(E.conn)>>,
                <<"no connection is established, that has not been requested", conn \subseteq est>>,
                <<"the requested connections are established, when the client is active",
                    n.active => (est \subseteq conn \/ (n.phase = "drained" /\ n.auto))>>,
                <<"the client is active after its activation and inactive after its deactivation",
                    E.active = n.active \/ (n.phase = "drained" /\ n.auto)>> >>)

BadVerdict == IF E.exc = "" THEN "connecting an unknown port must raise an error" ELSE "ok"

Verdict ==
    IF E.op = "hang" THEN E.name \o " does not return, though the recording has been finished"
    ELSE IF E.op = "badconnect" THEN (IF BadVerdict # "ok" THEN BadVerdict ELSE ObservationVerdict(NewState))
    ELSE IF E.exc # "" THEN E.op \o " raised " \o E.exc
    ELSE LET v == CASE E.op = "cycle" -> CycleVerdict
                    [] E.op = "midcycle" -> MidVerdict
                    [] E.op = "return" -> ReturnVerdict
                    [] E.op = "xrun" -> XrunVerdict
                    [] E.op = "samplerate" -> IF E.got = E.rate THEN "ok" ELSE "the sampling rate follows the server"
                    [] OTHER -> "ok"
         IN IF v # "ok" THEN v ELSE ObservationVerdict(NewState)

NextTrace == l' = l + 1 /\ i' = 1 /\ s' = Load(l + 1) /\ begun' = FALSE

Next ==
    /\ l <= Len(Trace)
    /\ IF i > Len(T.events) THEN NextTrace
       ELSE LET v == Verdict IN
            /\ Report(l, i, v)
            /\ IF v = "ok" THEN s' = NewState /\ begun' = (E.op = "midcycle" /\ (begun \/ Begins)) /\ i' = i + 1 /\ l' = l
               ELSE NextTrace

Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter >= Len(Trace)
=============================================================================
