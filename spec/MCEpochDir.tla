----------------------------- MODULE MCEpochDir -----------------------------
(***************************************************************************)
(* Design model of the use of epoch directories and of epoch dates.        *)
(* Two directories hold any sets of epochs 0..M; the search for the first  *)
(* epoch of both and the run from it, then the concatenation of epochs     *)
(* whose files hold the epoch number modulo W only.  Epochs last P/Q       *)
(* seconds; dates have U steps a second.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS M, W, P, Q, U, Defect

Eps == 0..M
VARIABLES A, B, first, S, e, k, st, skip, i, t, ev
vars == <<A, B, first, S, e, k, st, skip, i, t, ev>>

Init ==
  /\ A \in SUBSET Eps /\ B \in SUBSET Eps /\ first \in -1..M
  /\ S = {} /\ e = -1 /\ k = 0 /\ st = "find" /\ skip \in {0, 1}
  /\ i = 0 /\ t = <<>>
  \* events in each epoch: none, at its start, at its end
  /\ ev \in {[x \in Eps |-> {}], [x \in Eps |-> {0, 1}], [x \in Eps |-> {x % 2}]}

Find ==
  /\ st = "find"
  /\ LET c == A \cap B
         r == IF first = -1 THEN c ELSE IF Defect = "after" THEN {x \in c : x > first} ELSE {x \in c : x >= first}
     IN /\ S' = r
        /\ IF r = {} THEN st' = "none" /\ e' = -1 /\ k' = 0
           ELSE st' = "count" /\ e' = (CHOOSE x \in r : \A y \in r : x <= y) /\ k' = 1
  /\ UNCHANGED <<A, B, first, skip, i, t, ev>>
CountRun ==
  /\ st = "count"
  /\ IF Defect = "size" THEN k' = Cardinality(S) /\ st' = "read"
     ELSE IF e + k \in S THEN k' = k + 1 /\ st' = st ELSE k' = k /\ st' = "read"
  /\ UNCHANGED <<A, B, first, S, e, skip, i, t, ev>>
\* append the events of epoch e + skip + i; a file's times are modulo W
Read ==
  /\ st = "read"
  /\ IF skip + i >= k THEN st' = "done" /\ UNCHANGED <<i, t>>
     ELSE LET n == e + skip + i
              off == IF Defect = "nowrap" THEN 0 ELSE 2 * W * ((n \div W) - (e \div W))
              l == IF ev[n] = {0, 1} THEN <<0, 1>> ELSE IF ev[n] = {} THEN <<>> ELSE IF ev[n] = {0} THEN <<0>> ELSE <<1>>
          IN /\ t' = t \o [j \in 1..Len(l) |-> 2 * (n % W) + l[j] + off]
             /\ i' = i + 1 /\ st' = st
  /\ UNCHANGED <<A, B, first, S, e, k, skip, ev>>
Next == Find \/ CountRun \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Both == {x \in A \cap B : first # -1 => x >= first}
Found ==
  /\ st = "none" => Both = {}
  /\ st \in {"read", "done"} =>
       /\ e \in Both /\ \A x \in Both : e <= x
       /\ \A j \in 0..(k - 1) : e + j \in Both
       /\ e + k \notin Both
Increasing == \A j \in 1..(Len(t) - 1) : t[j] < t[j + 1]
AllThere == st = "done" =>
  Len(t) = LET F[j \in 0..k] == IF j = 0 THEN 0 ELSE F[j - 1] + (IF j - 1 < skip THEN 0 ELSE Cardinality(ev[e + j - 1])) IN F[k]
Ends == <>(st \in {"none", "done"})

(* Dates: the epoch of a second, the date of an epoch in steps of 1/U s. *)
EpochOf(s) == IF Defect = "nearest" THEN (2 * s * Q + P) \div (2 * P) ELSE (s * Q) \div P
DateOf(n) == IF Defect = "truncdate" THEN (n * P * U) \div Q ELSE (2 * n * P * U + Q) \div (2 * Q)
NextSec(us) == (us + U - 1) \div U
Dates == st = "find" =>
  /\ \A s \in 0..60 : EpochOf(s) * P <= s * Q /\ s * Q < (EpochOf(s) + 1) * P
  /\ \A n \in 0..60 : EpochOf(NextSec(DateOf(n))) >= n
=============================================================================
