---------------------------- MODULE TraceHeader ----------------------------
(* Checks what the header readers returned and reported against Header.    *)
EXTENDS Header, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACE).runs
VARIABLES run, done
vars == <<run, done>>

Clause(R) ==
  IF R.fail # "" THEN R.fail
  ELSE IF Len(R.bytes) < HeadSize(R.kind) THEN IF R.err = 1 THEN "" ELSE "a header cut short was read"
  ELSE IF R.whole = 0 /\ R.err = 1 THEN "a header was not read"
  ELSE IF R.whole = 0 /\ [i \in 1..Len(R.fields) |-> R.fields[i].b] # [i \in 1..Fields(R.kind) |-> Field(R.bytes, i)]
  THEN "a field is not what the header holds"
  ELSE IF R.whole = 0 /\ (R.fields[2].neg = 1 \/ R.fields[3].neg = 1) THEN "an epoch or length is negative"
  ELSE LET n == Reports(R.kind, R.bytes, R.name, R.whole)
       IN IF n = 0 /\ R.told > 0 THEN "a consistent file is reported"
          ELSE IF R.told < n THEN "an inconsistent file is not reported" ELSE ""

Init == run \in 1..Len(Runs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED run
        /\ PrintT(<<"END", Runs[run].id, 1, 1, Clause(Runs[run])>>)
Spec == Init /\ [][Next]_vars
=============================================================================
