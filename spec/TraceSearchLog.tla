--------------------------- MODULE TraceSearchLog ---------------------------
(* Checks recorded logs of fpfind and what it printed against SearchLog.    *)
EXTENDS SearchLog, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACE).runs
VARIABLES run, done
vars == <<run, done>>

Tells(R) ==
  LET opt == [R |-> R.R, r |-> R.r, thr |-> R.thr, Ts |-> R.Ts, Tm |-> R.Tm, Ta |-> R.Ta, par |-> R.par, ev |-> R.ev, scan |-> R.scan, full |-> R.full, dbg |-> IF R.level = 2 THEN 1 ELSE 0]
      s == Account(R.log, R.pre, opt)
  IN IF s.bad # "" THEN s.bad
     ELSE IF s.ph # "top" THEN "the log ends within a search"
     ELSE IF s.found = <<>>
     THEN IF R.code = 0 THEN "a result was printed that the log does not tell"
          ELSE IF s.i # Len(R.pre) THEN "not all precompensations are told" ELSE ""
     ELSE IF R.code # 0 THEN "the log tells a result that was not printed"
     ELSE IF R.full = 1 /\ s.i # Len(R.pre) THEN "not all precompensations are told"
     ELSE IF ~Close(s.found[1].dt, R.dt, 1) THEN "the time printed is not the first one found"
     ELSE IF ~IsRate(s.found[1].df, 10, R.df) THEN "the frequency printed is not the first one found"
     ELSE ""

Clause(R) ==
  IF R.fail # "" THEN R.fail
  ELSE IF R.same = 0 THEN "the log file and the messages differ"
  ELSE IF R.out = 0 THEN "the verbosity changes the output"
  ELSE IF R.level < 2 /\ \E i \in 1..Len(R.log) : R.log[i].k \notin (IF R.level = 1 THEN {"found", "fail", "spur"} ELSE {"spur"})
  THEN "messages are logged that were not asked for"
  ELSE IF R.level = 0 THEN "" ELSE Tells(R)

Init == run \in 1..Len(Runs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED run
        /\ PrintT(<<"END", Runs[run].id, 1, 1, Clause(Runs[run])>>)
Spec == Init /\ [][Next]_vars
=============================================================================
