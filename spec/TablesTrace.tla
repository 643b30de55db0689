----------------------------- MODULE TablesTrace -----------------------------
(* Validates, what has been loaded from tables and dictionaries. A trace is   *)
(*   [events |-> <<[doc, exc, out]>>]                                         *)
EXTENDS TraceLib

VARIABLES l, i
vars == <<l, i>>
T == Trace[l]
E == T.events[i]
B == INSTANCE Tables

Init == l = 1 /\ i = 1

TableVerdict(w, o) ==
    CASE o.lab # w.lab /\ Len(o.lab) = Len(w.lab) -> "labels"
      [] Len(o.ch) # Len(w.ch) \/ Len(o.lab) # Len(w.lab) -> "number of channels"
      [] ~ B!SameFraction(o.rate, w.rate) -> "sampling rate/resolution"
      [] o.off # w.off -> "offset"
      [] \E c \in DOMAIN w.ch : Len(o.ch[c]) # Len(w.ch[c]) -> "length"
      [] o.ch # w.ch -> "samples"
      [] OTHER -> "ok"

BandsVerdict(w, o) ==
    CASE Len(o.ch) # Len(w.ch) -> "number of channels"
      [] o.lab # w.lab -> "labels"
      [] \E c \in DOMAIN w.ch : {x[1] : x \in B!RangeOf(o.ch[c])} # {x[1] : x \in w.ch[c]} -> "frequencies"
      [] \E c \in DOMAIN w.ch : B!RangeOf(o.ch[c]) # w.ch[c] -> "values"
      [] OTHER -> "ok"

DictVerdict(w, o, doc) ==
    CASE ~ o.same -> "samples"
      [] o.lab # w.lab -> "labels"
      [] o.off # w.off -> "offset"
      [] ~ B!SameFraction(o.sr, w.sr) -> "sampling rate"
      [] ~ B!SameFraction(o.res, w.res) -> "resolution"
      [] OTHER -> "ok"

Verdict ==
    LET d == E.doc IN
    IF ~ d.text THEN IF E.exc = "ValueError" THEN "ok" ELSE "a text, that is not a table, must raise a ValueError"
    ELSE IF E.exc # "" THEN d.kind \o ": raised " \o E.exc
    ELSE LET v == CASE d.kind = "signal"   -> TableVerdict(B!SignalOf(d), E.out)
                    [] d.kind = "spectrum" -> TableVerdict(B!SpectrumOf(d), E.out)
                    [] d.kind = "dict"     -> DictVerdict(B!DictOf(d), E.out, d)
                    [] OTHER               -> BandsVerdict(B!BandsOf(d), E.out)
         IN IF v = "ok" THEN v ELSE d.kind \o ": " \o v

Next ==
    /\ l <= Len(Trace)
    /\ LET v == Verdict IN
       /\ Report(l, i, v)
       /\ IF v = "ok" /\ i < Len(T.events) THEN i' = i + 1 /\ l' = l ELSE l' = l + 1 /\ i' = 1

Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter >= Len(Trace)
==============================================================================
