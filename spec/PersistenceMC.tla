---------------------------- MODULE PersistenceMC ----------------------------
(* Enumerates all combinations of a format and a file name's ending and short *)
(* histories of saving, loading and damaging two files, checks the model and  *)
(* prints the cases.                                                          *)
EXTENDS Persistence, TLC, Json, IOUtils

VARIABLES mode, kind, setup, hist, files

vars == <<mode, kind, setup, hist, files>>
MaxOps == atoi(IOEnv.MAXOPS)
Kinds == {"signal", "spectrum", "spectrogram", "filter", "bands"}
AllEndings == UNION {KnownEndings(k) : k \in Kinds} \union {".xyz", "", ".WAV", ".Json"}

\* the endings of the two files and the formats, that are requested
Setups(k) ==
    CASE k = "signal" -> {[e |-> <<".wav", ".csv">>, f |-> {"AUTO", "NUMPY_NPZ", "WAV_INT16"}],
                          [e |-> <<".aiff", ".xyz">>, f |-> {"AUTO", "AIFF_ULAW", "TEXT_JSON"}],
                          [e |-> <<".npy", ".flac">>, f |-> {"AUTO", "TEXT_CSV", "PYTHON_PICKLE"}]}
      [] k = "spectrum" -> {[e |-> <<".csv", ".npy">>, f |-> {"AUTO", "TEXT_JSON", "NUMPY_NPZ"}]}
      [] k = "spectrogram" -> {[e |-> <<".npz", ".csv">>, f |-> {"AUTO", "TEXT_JSON", "PYTHON_PICKLE"}]}
      [] k = "filter" -> {[e |-> <<".txt", ".json">>, f |-> {"AUTO", "TEXT_REPR", "PYTHON_PICKLE"}]}
      [] k = "bands" -> {[e |-> <<".txt", ".dat">>, f |-> {"AUTO", "TEXT_REPR", "TEXT_GNUPLOT"}],
                         [e |-> <<".csv", ".npz">>, f |-> {"AUTO", "TEXT_PIPE_J", "NUMPY_NPY"}]}

Nothing == [t |-> "nothing", fmt |-> "", n |-> 0]
Init ==
    /\ hist = <<>>
    /\ files = <<Nothing, Nothing>>
    /\ mode \in {"pair", "history"}
    /\ kind \in Kinds
    /\ setup = [e |-> <<>>, f |-> {}]

Pair == /\ mode = "pair" /\ hist = <<>>
        /\ \E fmt \in Formats(kind) \union {"AUTO"}, e \in AllEndings : hist' = <<[op |-> "pair", fmt |-> fmt, ending |-> e]>>
        /\ UNCHANGED <<mode, kind, setup, files>>
Choose == /\ mode = "history" /\ setup.e = <<>>
          /\ setup' \in Setups(kind)
          /\ UNCHANGED <<mode, kind, hist, files>>
Ready == mode = "history" /\ setup.e # <<>> /\ Len(hist) < MaxOps
Save(p, f) == /\ hist' = Append(hist, [op |-> "save", p |-> p, fmt |-> f])
              /\ LET r == Resolve(kind, f, setup.e[p], TRUE) IN
                 files' = IF r = "none" THEN files ELSE [files EXCEPT ![p] = [t |-> "data", fmt |-> r, n |-> Len(hist)]]
              /\ UNCHANGED <<mode, kind, setup>>
Load(p) == /\ hist' = Append(hist, [op |-> "load", p |-> p, fmt |-> ""])
           /\ UNCHANGED <<mode, kind, setup, files>>
Damage(p) == /\ files[p].t = "data"
             /\ hist' = Append(hist, [op |-> "damage", p |-> p, fmt |-> ""])
             /\ files' = [files EXCEPT ![p] = [t |-> "damaged", fmt |-> "", n |-> Len(hist)]]
             /\ UNCHANGED <<mode, kind, setup>>
Next == Pair \/ Choose \/ (Ready /\ \E p \in {1, 2} : Load(p) \/ Damage(p) \/ \E f \in setup.f : Save(p, f))
Spec == Init /\ [][Next]_vars

\* a file holds what has been written last, in a format, that its reader recognises
Writes(p) == {k \in DOMAIN hist : /\ hist[k].op \in {"save", "damage"}
                                  /\ hist[k].p = p
                                  /\ hist[k].op = "save" => Resolve(kind, hist[k].fmt, setup.e[p], TRUE) # "none"}
LastSaveWins ==
    mode = "history" /\ setup.e # <<>> =>
    \A p \in {1, 2} : IF Writes(p) = {} THEN files[p] = Nothing
                      ELSE LET k == CHOOSE k \in Writes(p) : \A j \in Writes(p) : j <= k IN
                           /\ files[p].n = k - 1
                           /\ files[p].t = IF hist[k].op = "save" THEN "data" ELSE "damaged"
\* an automatically chosen format is one of the data set's formats and belongs to the ending
AutoIsConsistent ==
    \A e \in AllEndings, s \in BOOLEAN : LET f == Resolve(kind, "AUTO", e, s) IN
        f # "none" => f \in Formats(kind) /\ e \in Endings(kind, f)
\* every format without third party libraries can be chosen by name
NamedFormats == \A f \in Formats(kind) : Resolve(kind, f, ".xyz", TRUE) = f /\ (Resolve(kind, f, ".xyz", FALSE) = f <=> f \in BuiltIn)
Inv == LastSaveWins /\ AutoIsConsistent /\ NamedFormats

Constraint ==
    CASE mode = "pair" /\ hist # <<>> -> PrintT("@PAIR " \o ToJson([kind |-> kind, fmt |-> hist[1].fmt, ending |-> hist[1].ending]))
      [] mode = "history" /\ Len(hist) = MaxOps /\ hist[MaxOps].op = "load" -> PrintT("@HISTORY " \o ToJson([kind |-> kind, e |-> setup.e, hist |-> hist]))
      [] OTHER -> TRUE
===============================================================================
