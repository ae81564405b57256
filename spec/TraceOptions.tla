---------------------------- MODULE TraceOptions ----------------------------
(***************************************************************************)
(* Checks the searches that fpfind ran, recorded at the call of the search *)
(* itself, against Options.                                                *)
(***************************************************************************)
EXTENDS Options, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACE).runs
VARIABLES run, done
vars == <<run, done>>

Range0(s) == {s[i] : i \in 1..Len(s)}

\* The search for the given options on events a and b.
Searches(R, a, b, skip) ==
  LET g == R.given
      V(o) == Value(g, o)
      w == Normalised(<<a, b>>, skip, 1)
      B(o, else) == GivenOr(g, o, else)
  \* nothing to search for without events
  IN IF a = <<>> \/ b = <<>> THEN "" ELSE IF w[1] = <<>> \/ w[2] = <<>> THEN ""
     ELSE IF R.called = 0 THEN "the search was not run"
     ELSE IF R.code # 0 THEN "a result was not printed"
     ELSE IF R.a # w[1] THEN "the reference events searched are wrong"
     ELSE IF R.b # w[2] THEN "the target events searched are wrong"
     ELSE IF R.wraps # V("k") THEN "the number of wraps is wrong"
     ELSE IF R.bins # BPow2(V("q")) THEN "the number of bins is wrong"
     ELSE IF R.res # V("R") THEN "the initial resolution is wrong"
     ELSE IF R.tgt # V("r") THEN "the final resolution is wrong"
     ELSE IF R.thr # V("S") THEN "the threshold is wrong"
     ELSE IF R.sep # SeparationNs16(V("s"), V("k"), V("q"), V("R")) THEN "the separation is wrong"
     ELSE IF R.full # V("full") THEN "the full scan is wrong"
     ELSE IF V("P") = 0 THEN IF R.pre # <<BZero>> THEN "there are precompensations that were not enabled" ELSE ""
     \* a step of 0 is no scan
     ELSE IF B("step", R.step0) = BZero THEN IF R.pre # <<BZero>> THEN "the precompensations are wrong" ELSE ""
     ELSE IF ~IsPrecomp(R.pre, B("start", BZero), B("step", R.step0), B("stop", R.stop0), V("ordered"), 256)
       THEN "the precompensations are wrong" ELSE ""

Raw(R) ==
  LET V(o) == Value(R.given, o) IN
  IF V("t") = 0 \/ V("T") = 0
  THEN IF R.code = 0 \/ R.called = 1 THEN "a search was run without both files" ELSE ""
  \* files are all in one word order: X says which
  ELSE IF V("X") # R.legacy THEN ""
  ELSE Searches(R, R.ra[V("t")], R.rb[V("T")], BMulS(BInt(250000000), V("Z")))

Epochs(R) ==
  LET V(o) == Value(R.given, o) IN
  IF V("d") = 0 \/ V("D") = 0
  THEN IF R.code = 0 \/ R.called = 1 THEN "a search was run without both directories" ELSE ""
  ELSE
  LET ea == Range0(R.ea[V("d")])
      eb == Range0(R.eb[V("D")])
      n == EpochsNeeded(V("s"), V("k"), V("q"), V("R"))
      e == FirstCommon(ea, eb, V("e"))
      f == e + V("z")
  IN IF e = -1 \/ \E i \in 0..(n - 1) : f + i \notin ea \cap eb
     THEN IF R.code = 0 \/ R.called = 1 THEN "a search was run on missing epochs" ELSE ""
     ELSE Searches(R, InEpochs(R.da[V("d")], f, n), InEpochs(R.db[V("D")], f, n), BZero)

Clause(R) ==
  IF R.fail # "" THEN R.fail
  ELSE CASE R.kind = "raw" -> Raw(R)
         [] R.kind = "epochs" -> Epochs(R)
         [] R.kind = "idle" -> IF R.called = 1 THEN "a search was run" ELSE IF (R.code = 0) # (R.good = 1) THEN "the exit status is wrong" ELSE ""

Init == run \in 1..Len(Runs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED run
        /\ PrintT(<<"END", Runs[run].id, 1, 1, Clause(Runs[run])>>)
Spec == Init /\ [][Next]_vars
=============================================================================
