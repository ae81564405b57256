---------------------------- MODULE TraceStandin ----------------------------
(* Checks histories of real calls of the stand-in against module Standin.  *)
EXTENDS Standin, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACE).runs
VARIABLES run, i, place, bad
vars == <<run, i, place, bad>>
Init == run \in 1..Len(Runs) /\ i = 1 /\ place = "standin" /\ bad = ""
Next ==
  LET R == Runs[run] IN
  /\ i <= Len(R.steps) + 1 /\ i' = i + 1 /\ UNCHANGED run
  /\ IF i <= Len(R.steps)
     THEN place' = R.steps[i].place /\ bad' = IF bad # "" THEN bad ELSE StepVerdict(place, R.steps[i])
     ELSE UNCHANGED <<place, bad>> /\ PrintT(<<"END", R.id, Len(R.steps), 1, bad>>)
Spec == Init /\ [][Next]_vars
=============================================================================
