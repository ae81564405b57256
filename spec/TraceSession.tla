---------------------------- MODULE TraceSession ----------------------------
(***************************************************************************)
(* Checks recorded sessions with the real library against module Session.  *)
(* Contents of arrays and files are told by digests.  A run has            *)
(*   start   names n and contents v of all arrays and files                *)
(*   fresh   what a process that called nothing else answers: function fn, *)
(*           options opt, contents of what is used (use), answer ans, and  *)
(*           contents made of the array or file that the call makes (any   *)
(*           if these are the answer itself)                               *)
(*   steps   kind "call": fn, opt, names use of what is passed, got, and   *)
(*           the name makes of what it makes (or "")                       *)
(*           kind "own": the caller changes the contents of the one named  *)
(*           makes; both with all contents afterwards                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACE).runs
VARIABLES run, k, now, bad
vars == <<run, k, now, bad>>

AsFun(l) == [x \in {l[j].n : j \in 1..Len(l)} |-> l[CHOOSE j \in 1..Len(l) : l[j].n = x].v]
But(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

Verdict(R, s) ==
  LET after == AsFun(s.after)
      ins   == [j \in 1..Len(s.use) |-> IF s.use[j] \in DOMAIN now THEN now[s.use[j]] ELSE "none"]
      same  == {j \in 1..Len(R.fresh) : R.fresh[j].fn = s.fn /\ R.fresh[j].opt = s.opt /\ R.fresh[j].use = ins}
      want  == R.fresh[CHOOSE j \in same : TRUE]
  IN IF s.kind = "own" THEN IF But(after, s.makes) # But(now, s.makes) THEN "changing one thing changed another" ELSE ""
     ELSE IF same = {} THEN "a call was not made on what the caller has"
     ELSE IF s.got # want.ans THEN "the answer depends on what was done before"
     ELSE IF But(after, s.makes) # But(now, s.makes) THEN "a call changed something of its caller's"
     ELSE IF s.makes # "" /\ want.made # "any" /\ (IF s.makes \in DOMAIN after THEN after[s.makes] ELSE "none") # want.made THEN "what a call made depends on what was done before"
     ELSE ""

Init == run \in 1..Len(Runs) /\ k = 1 /\ now = AsFun(Runs[run].start) /\ bad = ""
Next ==
  LET R == Runs[run] IN
  IF k > Len(R.steps) \/ bad # ""
  THEN k # 0 /\ PrintT(<<"END", R.id, Len(R.steps), k, bad>>) /\ k' = 0 /\ bad' = "-" /\ UNCHANGED <<run, now>>
  ELSE k' = k + 1 /\ bad' = Verdict(R, R.steps[k]) /\ now' = AsFun(R.steps[k].after) /\ UNCHANGED run
Spec == Init /\ [][Next]_vars
=============================================================================
