------------------------------ MODULE TraceLib ------------------------------
(* Reading recorded executions and reporting total verdicts.                  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

\* The recorded executions: one JSON object per line of the trace file.
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

\* Reports a rejection of the trace in the given line and stays TRUE, so that the remaining traces are still checked.
Report(line, step, clause) ==
    IF clause = "ok" THEN TRUE ELSE PrintT("@REJECT " \o ToJson([line |-> line, step |-> step, clause |-> clause]))

\* The name of the first violated clause in a sequence of <<name, holds>> pairs.
\* TLC evaluates all pairs, so a clause, that relies on an earlier one, has to repeat it (or CASE has to be used instead).
RECURSIVE FirstViolated(_)
FirstViolated(clauses) ==
    IF clauses = <<>> THEN "ok"
    ELSE IF Head(clauses)[2] THEN FirstViolated(Tail(clauses)) ELSE Head(clauses)[1]
=============================================================================
