----------------------------- MODULE TraceDetune -----------------------------
(***************************************************************************)
(* Checks the files that generate_freqdetuneg2 leaves, and calls of its    *)
(* detune, against Detune.                                                 *)
(***************************************************************************)
EXTENDS Detune, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACE).runs
VARIABLES run, done
vars == <<run, done>>

FirstOf(l) == LET q == SelectSeq(l, LAMBDA x : x # "") IN IF q = <<>> THEN "" ELSE q[1]

\* One unit, and what doubles cannot tell.
Slack(t, t0) == BAdd(BInt(1), BShr(BAbs(BSub(t, t0)), 50))

Detuned(e, x, p, num, d1, d2, off) ==
  LET k == OfPattern(e, p) IN 
    IF Len(x) # Len(k) THEN "there are not exactly the events of the detector"
    ELSE IF \E i \in 1..Len(x) : x[i].p # p THEN "a pattern is wrong"
    ELSE IF \E i \in 1..Len(x) : ~IsDetuned(x[i].t, k[i].t, e[1].t, num, d1, d2, off, Slack(k[i].t, e[1].t)) THEN "a detuned time is wrong" ELSE ""

Pow10 == <<10, 100, 1000, 10000, 100000>>
Script(R) ==
  LET e == Events("1", 1, R.input) IN FirstOf(<<
    IF R.code # 0 THEN "the script failed" ELSE "",
    IF ~R.ref.there THEN "the reference file is missing" ELSE IF ~IsFileOf("2", 1, OfPattern(e, 1), R.ref.bytes) THEN "the reference file is not that of the first detector" ELSE "",
    FirstOf([i \in 1..Len(R.out) |->
      LET f == R.out[i]
          n == f.n
      IN IF ~f.there THEN "a detuned file is missing"
         ELSE Detuned(e, Events("1", 1, f.bytes), 8, 1, Pow10[IF n > 5 THEN 5 ELSE n], IF n > 5 THEN Pow10[n - 5] ELSE 1, BZero)])>>)

Call(R) ==
  LET e == [i \in 1..Len(R.t) |-> [t |-> R.t[i], p |-> R.p[i]]]
      x == [i \in 1..Len(R.ot) |-> [t |-> R.ot[i], p |-> R.op[i]]]
  IN Detuned(e, x, R.ch, R.num, R.d1, R.d2, R.off)

Clause(R) ==
  IF R.fail # "" THEN R.fail
  ELSE CASE R.kind = "script" -> Script(R)
         [] R.kind = "call" -> Call(R)

Init == run \in 1..Len(Runs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED run
        /\ PrintT(<<"END", Runs[run].id, 1, 1, Clause(Runs[run])>>)
Spec == Init /\ [][Next]_vars
=============================================================================
