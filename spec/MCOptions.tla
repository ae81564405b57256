------------------------------ MODULE MCOptions ------------------------------
(***************************************************************************)
(* Reading one value and one flag from three sources in any order of       *)
(* appearance, and choosing the epochs for every small window, separation  *)
(* and place of the first event: the source of highest rank wins, and the  *)
(* epochs hold the events of both windows.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS EP, W, SMax, Defect
VARIABLES val, flag, seen, win, sep, at
vars == <<val, flag, seen, win, sep, at>>

Sources == 1..3
None == [r |-> 0, v |-> 0]
Init == /\ val = None /\ flag = FALSE /\ seen = {}
        /\ win \in 1..W /\ sep \in 1..SMax /\ at \in 0..(EP - 1)
\* A source is read: it gives the value v (or not) and the flag (or not).
Read(s) ==
  /\ s \notin {x.s : x \in seen}
  /\ \E v \in 0..2, f \in BOOLEAN :
       /\ seen' = seen \cup {[s |-> s, v |-> v, f |-> f]}
       /\ val' = IF v = 0 THEN val
                 ELSE IF Defect = "last" \/ (IF Defect = "reverse" THEN val.r = 0 \/ s <= val.r ELSE s >= val.r) THEN [r |-> s, v |-> v] ELSE val
       /\ flag' = IF Defect = "flag" THEN f ELSE flag \/ f
  /\ UNCHANGED <<win, sep, at>>
Next == \E s \in Sources : Read(s)
Spec == Init /\ [][Next]_vars

Precedence ==
  LET G == {x \in seen : x.v # 0} IN
  IF G = {} THEN val = None
  ELSE LET b == CHOOSE x \in G : \A y \in G : y.s <= x.s IN val.v = b.v
OnIfGiven == flag = (\E x \in seen : x.f)

Ceil(a, b) == (a + b - 1) \div b
Needed == CASE Defect = "nobuffer" -> Ceil((sep + 1) * win, EP)
            [] Defect = "floor" -> ((sep + 1) * win) \div EP + 1
            [] Defect = "nowindow" -> Ceil(sep * win, EP) + 1
            [] OTHER -> Ceil((sep + 1) * win, EP) + 1
\* From the first event, at `at' in the first epoch, to the end of the last.
WideEnough == Needed * EP - at >= (sep + 1) * win
NotTooMany == (Needed - 2) * EP < (sep + 1) * win
=============================================================================
