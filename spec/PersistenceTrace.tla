-------------------------- MODULE PersistenceTrace --------------------------
(* Validates recorded histories of saving and loading (see Persistence).      *)
(*   save    [path, ending, kind, fmt, d, exc, found, self, changed]          *)
(*           found: the formats, that the content of the file is compatible   *)
(*           with; changed: the file's bytes have been changed                *)
(*   load    [path, kind, exc, r, digest, fresh]                              *)
(*           digest, fresh: identify the outcome and that of loading the same *)
(*           file in a process, that has not loaded or saved any other file   *)
(*   repr    [d, exc, r]      evaluating the representation                   *)
(*   damage  [path]           the file now has content of another kind        *)
(*   remove  [path]                                                           *)
(* dir = FALSE in a save: the directory for the file does not exist.          *)
EXTENDS TraceLib

VARIABLES l, i, files

P == INSTANCE Persistence
vars == <<l, i, files>>
T == Trace[l]
E == T.events[i]
Init == l = 1 /\ i = 1 /\ files = <<>>       \* a function from paths to contents (paths are strings)

Errors == {"ValueError"}
FileErrors == {"OSError", "FileNotFoundError", "NotADirectoryError", "PermissionError", "IsADirectoryError"}
Unavailable == {"ValueError", "ImportError"}

Fmt == P!Resolve(E.kind, E.fmt, E.ending, T.soundfile)
Content(p) == IF p \in DOMAIN files THEN files[p] ELSE [t |-> "nothing"]
SaveVerdict ==
    CASE ~ E.dir /\ Fmt # "none" -> (IF E.exc = "" THEN "save: succeeded without a directory"
                                     ELSE IF E.exc \in FileErrors \union Errors \union {"LibsndfileError"} THEN "ok" ELSE "save raised " \o E.exc)
      [] Fmt = "none" -> (CASE E.exc = "" -> "save: a format, that cannot be determined or is not available"
                            [] E.changed -> "save: a failing save has changed the file"
                            [] E.fmt = "AUTO" /\ E.ending \notin P!KnownEndings(E.kind) /\ E.exc \notin Errors -> "save raised " \o E.exc
                            [] E.exc \notin Unavailable -> "save raised " \o E.exc
                            [] OTHER -> "ok")
      [] E.exc # "" -> "save to " \o Fmt \o " raised " \o E.exc
      [] ~ \E f \in DOMAIN E.found : E.found[f] = Fmt -> "save: the file does not have the format " \o Fmt
      [] ~ E.self -> "save: does not return the data set"
      [] OTHER -> "ok"
LoadVerdict ==
    LET c == Content(E.path) IN
    CASE E.digest # E.fresh -> "load: another outcome than in a new process"
      [] c.t = "unknown" -> "ok"
      [] c.t \in {"nothing", "damaged"} ->
            (CASE E.exc = "" -> "load: a " \o (IF c.t = "nothing" THEN "missing" ELSE "damaged") \o " file has been loaded"
               [] E.exc \notin Errors \union FileErrors -> "load raised " \o E.exc
               [] OTHER -> "ok")
      \* only files of the same kind of data sets can be loaded
      [] c.t = "data" /\ c.d.kind # E.kind /\ ~ {c.d.kind, E.kind} \subseteq {"filter", "bands"} -> "ok"
      [] E.exc # "" -> "load of " \o c.fmt \o " raised " \o E.exc
      [] OTHER -> LET v == P!Restored(c.fmt, c.d, E.r) IN IF v = "ok" THEN "ok" ELSE "load of " \o c.fmt \o ": " \o v
ReprVerdict ==
    IF E.exc # "" THEN "repr raised " \o E.exc
    ELSE LET v == P!Restored("TEXT_REPR", E.d, E.r) IN IF v = "ok" THEN "ok" ELSE "repr: " \o v

Verdict ==
    CASE E.op = "save" -> SaveVerdict
      [] E.op = "load" -> LoadVerdict
      [] E.op = "repr" -> ReprVerdict
      [] OTHER -> "ok"

With(p, c) == [q \in DOMAIN files \union {p} |-> IF q = p THEN c ELSE files[q]]
Files ==
    CASE E.op = "save" -> (IF ~ E.dir \/ Fmt = "none" THEN files ELSE With(E.path, [t |-> "data", fmt |-> Fmt, d |-> E.d]))
      [] E.op = "damage" -> With(E.path, [t |-> "damaged"])
      [] E.op = "remove" -> With(E.path, [t |-> "nothing"])
      [] OTHER -> files

Next ==
    /\ l <= Len(Trace)
    /\ LET v == Verdict IN
       /\ Report(l, i, v)
       /\ IF v = "ok" /\ i < Len(T.events)
          THEN i' = i + 1 /\ l' = l /\ files' = Files
          ELSE l' = l + 1 /\ i' = 1 /\ files' = <<>>

Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter >= Len(Trace)
===============================================================================
