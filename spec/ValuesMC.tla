------------------------------ MODULE ValuesMC ------------------------------
(* How SuMPF's data sets are stored: a data set refers to a block of memory.  *)
(* Operations return                                                          *)
(*   "same"   an operand itself (e.g. a shift by 0)                           *)
(*   "view"   a data set, that refers to the memory of its operand (slices,   *)
(*            shifting the offset, ...)                                       *)
(*   "fresh"  a data set with newly allocated memory, that has been computed  *)
(*            in several steps, each of which overwrites the new block        *)
(*   "look"   no data set (levels, comparisons, hashes, saving to a file)     *)
(* The invariant is, that contents never change, although memory is shared    *)
(* and although freshly allocated memory is overwritten. All programs up to a *)
(* given length are printed.                                                  *)
EXTENDS Values, Json, IOUtils, FiniteSets

VARIABLES memory, ref, heap, memo, program, busy
vars == <<memory, ref, heap, memo, program, busy>>
MaxOps == atoi(IOEnv.MAXOPS)
Operands == 2

\* contents are natural numbers: the result of an operation is an uninterpreted function of the contents of the operands
Result(x, y) == (7 * x + 11 * y + 3) % 101
Init ==
    /\ memory = <<1, 2>>             \* the contents of the blocks
    /\ ref = <<1, 2>>                \* the blocks of the data sets
    /\ heap = <<1, 2>>               \* what the contents have been, when the data sets were created
    /\ memo = [k \in {} |-> 0]
    /\ program = <<>>
    /\ busy = 0                      \* the number of remaining steps of the computation in the newest block

Content(h) == memory[ref[h]]
Ready == busy = 0 /\ Len(program) < MaxOps
Log(class, x, y) == program' = Append(program, <<class, x, y>>)

Same(h) == /\ Ready /\ Log("same", h, h) /\ ref' = Append(ref, ref[h]) /\ heap' = Append(heap, Content(h))
           /\ UNCHANGED <<memory, memo, busy>>
View(h) == /\ Ready /\ Log("view", h, h) /\ ref' = Append(ref, ref[h]) /\ heap' = Append(heap, Content(h))
           /\ UNCHANGED <<memory, memo, busy>>
Look(h, g) == /\ Ready /\ Log("look", h, g)
              /\ memo' = Memorize(memo, Key("look", "", <<h, g>>, heap), Result(Content(h), Content(g)))
              /\ UNCHANGED <<memory, ref, heap, busy>>
\* the computation starts with arbitrary values in the new block
Start(h, g) == /\ Ready /\ Log("fresh", h, g) /\ memory' = Append(memory, 0) /\ busy' = 2
               /\ UNCHANGED <<ref, heap, memo>>
\* ... overwrites them and publishes the block in the end
Step == LET p == program[Len(program)]
            r == IF busy = 2 THEN Content(p[2]) ELSE Result(Content(p[2]), Content(p[3]))
        IN
        /\ busy > 0 /\ busy' = busy - 1
        /\ memory' = [memory EXCEPT ![Len(memory)] = r]
        /\ IF busy = 1 THEN /\ ref' = Append(ref, Len(memory)) /\ heap' = Append(heap, r)
                            /\ memo' = Memorize(memo, Key("fresh", "", <<p[2], p[3]>>, heap), r)
                       ELSE UNCHANGED <<ref, heap, memo>>
        /\ UNCHANGED program
Next == Step \/ \E h \in DOMAIN ref : Same(h) \/ View(h) \/ \E g \in DOMAIN ref : Look(h, g) \/ Start(h, g)
Spec == Init /\ [][Next]_vars

Now == [h \in DOMAIN ref |-> Content(h)]
Inv ==
    /\ Len(heap) = Len(ref)
    /\ ChangedHandles(heap, Now) = {}
    /\ \A h, g \in DOMAIN ref :
        Repeatable(memo, Key("fresh", "", <<h, g>>, heap), Result(Content(h), Content(g)))
Constraint == IF busy = 0 /\ Len(program) = MaxOps THEN PrintT("@PROGRAM " \o ToJson(program)) ELSE TRUE
=============================================================================
