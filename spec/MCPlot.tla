------------------------------- MODULE MCPlot -------------------------------
(***************************************************************************)
(* Two clocks of any small offset D and rate 1 + F/U, their events, and    *)
(* the compensation by the offsets at the common origin: coincidences end  *)
(* up with no delay between them, whatever the origin.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS U, L, Defect
VARIABLES D, F, S, skip
vars == <<D, F, S, skip>>

Init == D \in -3..3 /\ F \in -1..1 /\ S = {} /\ skip = 0
Next == \/ \E x \in {U * i : i \in 1..L} : x \notin S /\ S' = S \cup {x} /\ UNCHANGED <<D, F, skip>>
        \/ skip < 2 * U /\ skip' = skip + U /\ UNCHANGED <<D, F, S>>
Spec == Init /\ [][Next]_vars

\* All times are multiplied by U; the clocks agree on D at time 0.
Shows(x) == x + D + F * (x \div U)
Min(X) == CHOOSE x \in X : \A y \in X : x <= y
B == {Shows(x) : x \in S}
O == (IF Min(S) > Min(B) THEN Min(S) ELSE Min(B)) + skip
\* What fpfind reports: the offset when the reference shows O, exactly (times U).
DtU == D * U + F * O
\* Compensated target event, multiplied by U + F.
CompU(y) == CASE Defect = "plus" -> (y - O) * U + DtU
              [] Defect = "late" -> (y - O) * U - DtU * (U + F)
              [] Defect = "origin" -> y * U - DtU
              [] Defect = "swap" -> (y - Min(B)) * U - DtU
              [] OTHER -> (y - O) * U - DtU
Aligned == S # {} => \A x \in S : CompU(Shows(x)) = (x - O) * (U + F)
=============================================================================
