--------------------------- MODULE EqualityTrace ---------------------------
(* Validates recorded comparisons (see Equality). A trace is one of           *)
(*   "compare"  objects with the results of comparing them with each other:   *)
(*              eq, ne   eq[i][j]: "true", "false" or what has been raised    *)
(*              hash     the hashes as strings, "unhashable" for filters      *)
(*              stable   FALSE, if an object's hash or content has changed    *)
(*   "labels"   given: the labels for the constructor, number: the number of  *)
(*              channels, got: the labels of the object                       *)
EXTENDS TraceLib, FiniteSets

VARIABLES l, i
E == INSTANCE Equality
vars == <<l, i>>
T == Trace[l]
O == T.objects
Truth(x) == IF x THEN "true" ELSE "false"

PairVerdict(p, q) ==
    LET a == O[p]
        b == O[q]
        eq == T.eq[p][q]
        ne == T.ne[p][q]
    IN
    CASE a.k = "other" /\ b.k = "other" -> "ok"
      [] eq \notin {"true", "false"} -> "comparing raised " \o eq
      [] ne \notin {"true", "false"} -> "comparing with != raised " \o ne
      [] eq = ne -> "!= is not the negation of =="
      [] T.eq[q][p] # eq -> "== is not symmetric"
      [] ~ E!Specified(a, b) -> "ok"
      [] E!Equal(a, b) /\ eq = "false" -> "objects with the same content are unequal"
      [] ~ E!Equal(a, b) /\ eq = "true" -> "objects with different content are equal"
      [] E!Equal(a, b) /\ T.hash[p] # T.hash[q] -> "equal objects have different hashes"
      [] OTHER -> "ok"
HashVerdict(p) ==
    CASE O[p].k \in {"signal", "spectrum", "spectrogram"} /\ T.hash[p] = "unhashable" -> "a data set is not hashable"
      [] OTHER -> "ok"
CompareVerdict ==
    LET bad == {x \in (DOMAIN O) \X (DOMAIN O) : PairVerdict(x[1], x[2]) # "ok"}
        un == {p \in DOMAIN O : HashVerdict(p) # "ok"}
    IN
    CASE bad # {} -> (LET x == CHOOSE x \in bad : TRUE IN PairVerdict(x[1], x[2]))
      [] un # {} -> HashVerdict(CHOOSE p \in un : TRUE)
      [] ~ T.stable -> "comparing or hashing has changed an object or its hash"
      [] OTHER -> "ok"
LabelVerdict ==
    CASE T.exc # "" -> "the constructor raised " \o T.exc
      [] Len(T.got) # T.number -> "the number of labels is not that of the channels"
      [] T.got # (IF T.kind = "bands" THEN E!BandsSanitized(T.given, T.number) ELSE E!Sanitized(T.given, T.number)) -> "the labels are not those, that have been given, filled up with empty strings"
      [] OTHER -> "ok"
Verdict == IF T.what = "compare" THEN CompareVerdict ELSE LabelVerdict

Init == l = 1 /\ i = 1
Next == /\ l <= Len(Trace)
        /\ Report(l, i, Verdict)
        /\ l' = l + 1 /\ i' = 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter >= Len(Trace)
=============================================================================
