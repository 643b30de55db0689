-------------------------------- MODULE Store --------------------------------
(* The data sets of a program and the operations, that create new ones.       *)
(*                                                                            *)
(* State:       store  the sequence of all data sets, that have been created  *)
(* Transitions: an operation (an event e) creates a new data set from         *)
(*              existing ones and never changes those.                        *)
(*                                                                            *)
(* Events: [op, a, b, arr, left, args, s, keep]                               *)
(*   op    the name of the operation                                          *)
(*   a, b  indices of the operands in the store; b = 0 for other operands     *)
(*   arr   a number or an array as second operand (see Algebra!WithArray)     *)
(*   left  TRUE, if the number or array is the left operand                   *)
(*   args  further parameters                                                 *)
(*   s     the scale of the result's samples                                  *)
(*   keep  TRUE, if the result is added to the store                          *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLE store

A == INSTANCE Algebra
I == INSTANCE Indexing
Mv == INSTANCE Moving
C == INSTANCE Convolution

Binaries == A!Operators

ConvLabel(e, name) == IF e.b # 0 THEN <<name>> ELSE <<>>
\* arrays are signals without an offset for the convolution
Other(e) == IF e.b # 0 THEN store[e.b] ELSE [e.arr EXCEPT !.off = 0]

ArrayOf(d) == [d EXCEPT !.k = "array", !.off = 0, !.sr = <<0, 1>>, !.res = <<0, 1>>, !.lab = <<>>]
Axis(seq) == [k |-> "array", nc |-> 1, nf |-> 1, len |-> Len(seq), off |-> 0, sr |-> <<0, 1>>, res |-> <<0, 1>>, lab |-> <<>>,
              ch |-> << << [i \in 1 .. Len(seq) |-> <<seq[i], 0>>] >> >>]

Result(e) ==
    LET d == store[e.a] IN
    CASE e.op \in Binaries /\ e.b # 0 -> A!Binary(e.op, e.s, d, store[e.b])
      [] e.op \in Binaries /\ e.b = 0 -> A!WithArray(e.op, e.s, d, e.arr, e.left)
      [] e.op = "neg" -> A!Negative(e.s, d)
      [] e.op = "abs" -> A!Absolute(e.s, d)
      [] e.op = "conjugate" -> A!Conjugated(e.s, d)
      [] e.op = "invert" -> A!Inverse(e.s, d)
      [] e.op = "magnitude" -> ArrayOf(A!Absolute(e.s, d))
      [] e.op = "real" -> ArrayOf(A!Real(e.s, d))
      [] e.op = "imaginary" -> ArrayOf(A!Imaginary(e.s, d))
      [] e.op = "phase" -> ArrayOf(A!Phase(e.s, d))
      [] e.op = "time_samples" -> Axis(A!TimeSamples(d))
      [] e.op = "frequency_samples" -> Axis(A!FrequencySamples(d))
      [] e.op = "shape" -> Axis(IF d.k = "spectrogram" THEN <<d.nc, d.nf, d.len, d.nc, d.len>> ELSE <<d.nc, d.len, d.nc, d.len>>)
      [] e.op = "slice" -> I!Slice(d, e.args.key)
      [] e.op = "reversed" -> Mv!Reverse(d)
      [] e.op = "pad" -> Mv!Pad(d, e.args.length, e.args.value)
      [] e.op = "shift" -> Mv!Shift(d, e.args.shift, e.args.mode)
      [] e.op = "convolve" -> C!Convolve(d, Other(e), e.args.mode, ConvLabel(e, "Convolution"))
      [] e.op = "correlate" -> C!Correlate(d, Other(e), e.args.mode, ConvLabel(e, "Correlation"))
      [] e.op = "convolve_number" -> C!Scale(d, e.args.number)

\* whether the offset of the result is specified
OffsetDefined(e) == e.op = "slice" => I!HasDefinedOffset(store[e.a], e.args.key)

Create(e) == store' = IF e.keep THEN Append(store, Result(e)) ELSE store
==============================================================================
