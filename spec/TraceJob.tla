------------------------------ MODULE TraceJob ------------------------------
(* Checks what came of real runs of the programs against module Job.       *)
EXTENDS Job, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACE).runs
VARIABLES run, done
vars == <<run, done>>
Init == run \in 1..Len(Runs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED run
        /\ PrintT(<<"END", Runs[run].id, 1, 1, Verdict(Runs[run].job, Runs[run].out)>>)
Spec == Init /\ [][Next]_vars
=============================================================================
