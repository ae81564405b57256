------------------------------ MODULE TraceLogs -----------------------------
(***************************************************************************)
(* Checks recorded histories of the real loggers against module Logs.  A   *)
(* run has human (of the standard error of every logger), steps (get,      *)
(* verb, file, log with its message m and whether it was let through), and *)
(* got: all lines found in every output in the end, as in Logs (head is 2  *)
(* for a line that is neither a head nor one below a head).                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACE).runs
L == INSTANCE Logs WITH Names <- {"a"}, Files <- {"f"}, Steps <- 1, Defect <- "none",
                        level <- 0, outs <- 0, text <- 0, said <- 0, n <- 0
Outputs == {"err", "f", "g", "root"}
VARIABLES run, k, level, outs, want, bad
vars == <<run, k, level, outs, want, bad>>

Init == /\ run \in 1..Len(Runs) /\ k = 1 /\ bad = ""
        /\ level = [x \in {"a", "a.b", "c"} |-> 0] /\ outs = [x \in {"a", "a.b", "c"} |-> <<>>]
        /\ want = [o \in Outputs |-> <<>>]

Human(R, x, o) == IF o = "err" THEN R.human[x] = 1 ELSE R.human[o] = 1
Level(s) == IF s.k = "verb" THEN L!Verbose(IF s.v = "0" THEN 0 ELSE IF s.v = "1" THEN 1 ELSE 2) ELSE L!LevelOf(s.v)

RECURSIVE Firsts(_, _, _)
Firsts(a, b, i) == IF i > Len(a) \/ i > Len(b) \/ a[i] # b[i] THEN i ELSE Firsts(a, b, i + 1)
Judge(R) ==
  LET wrong == {o \in Outputs : want[o] # R.got[o]} IN
  IF wrong = {} THEN ""
  ELSE LET o == CHOOSE o \in wrong : TRUE
           i == Firsts(want[o], R.got[o], 1)
       IN IF o = "root" THEN "messages appear where they should not"
          ELSE IF i > Len(R.got[o]) THEN "lines are missing from an output"
          ELSE IF i > Len(want[o]) THEN "an output has lines nobody wrote"
          ELSE IF R.got[o][i].head = 2 THEN "a line cannot be told"
          ELSE "an output has another line than was written"

Next ==
  LET R == Runs[run] IN
  IF k = 0 THEN FALSE
  ELSE IF k > Len(R.steps)
  THEN /\ PrintT(<<"END", R.id, Len(R.steps), k, Judge(R)>>)
       /\ k' = 0 /\ UNCHANGED <<run, level, outs, want, bad>>
  ELSE LET s == R.steps[k]  x == s.x IN
       /\ k' = k + 1 /\ UNCHANGED <<run, bad>>
       /\ level' = IF s.k \in {"get", "verb"} THEN [level EXCEPT ![x] = Level(s)] ELSE level
       /\ outs' = IF s.k = "file" THEN [outs EXCEPT ![x] = Append(@, s.v)]
                  ELSE IF s.k = "get" /\ Len(outs[x]) = 0 THEN [outs EXCEPT ![x] = <<"err">>]
                  ELSE outs
       /\ want' = IF s.k # "log" THEN want
                  ELSE IF L!Levels[s.v] < level[x] THEN want
                  ELSE [o \in Outputs |-> IF \E i \in 1..Len(outs[x]) : outs[x][i] = o
                                          THEN want[o] \o L!Lines(s.m, Human(R, x, o)) ELSE want[o]]
Spec == Init /\ [][Next]_vars
=============================================================================
