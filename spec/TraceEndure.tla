----------------------------- MODULE TraceEndure ----------------------------
(***************************************************************************)
(* Checks recorded lives of the real freqcd against module Endure.  A run  *)
(* has steps: kind k and number n (ev: events, drip: one by one; part:     *)
(* bytes of one; line, bad: lines, linedrip: one by one; long: bytes       *)
(* without an end of line; end: of corrections; idle: some time without    *)
(* anything), warm (1 for the first ones, which use everything once), and  *)
(* how things are after it: alive, events out,                             *)
(* memory (kB), files (descriptors), cpu of the time waited (ticks of      *)
(* 10 ms; wall likewise, 0 if not idle), left (bytes not read).            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACE).runs
Slack == 192     \* kB
VARIABLES run, k, bytes, base, bad
vars == <<run, k, bytes, base, bad>>
Init == run \in 1..Len(Runs) /\ k = 1 /\ bytes = 0 /\ base = [mem |-> 0, files |-> 0] /\ bad = ""
More(a, b) == IF a > b THEN a ELSE b

Judge(s, b) ==
  IF s.alive = 0 THEN "it ended though its input goes on"
  ELSE IF s.out # b \div 8 THEN "not as many events came out as went in"
  ELSE IF s.left # 0 THEN "corrections are not read"
  ELSE IF s.warm = 0 /\ s.memory > base.mem + Slack THEN "memory grows"
  ELSE IF s.warm = 0 /\ s.files > base.files THEN "descriptors are not given back"
  ELSE IF s.k = "idle" /\ 2 * s.cpu > s.wall THEN "it is busy though nothing arrives"
  ELSE ""

Next ==
  LET R == Runs[run] IN
  IF k = 0 THEN FALSE
  ELSE IF k > Len(R.steps) \/ bad # ""
  THEN /\ PrintT(<<"END", R.id, Len(R.steps), k, bad>>)
       /\ k' = 0 /\ UNCHANGED <<run, bytes, base, bad>>
  ELSE LET s == R.steps[k]
           b == bytes + (IF s.k \in {"ev", "drip"} THEN 8 * s.n ELSE IF s.k = "part" THEN s.n ELSE 0) IN
       /\ k' = k + 1 /\ UNCHANGED run
       /\ bytes' = b
       /\ bad' = Judge(s, b)
       /\ base' = IF s.warm = 1 THEN [mem |-> More(base.mem, s.memory), files |-> More(base.files, s.files)] ELSE base
Spec == Init /\ [][Next]_vars
=============================================================================
