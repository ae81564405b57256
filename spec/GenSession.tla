----------------------------- MODULE GenSession -----------------------------
(* Histories of Steps steps of a session.  Step k is one of the session's  *)
(* own calls of that kind, number i; edits and rewrites are of what the    *)
(* calls used or made.                                                     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Steps, Calls, Kinds
VARIABLES c, told
Own == {"edit", "rewrite", "scribble"}

Init == c = <<>> /\ told = FALSE
Next == /\ Len(c) < Steps /\ UNCHANGED told
        /\ \/ \E k \in Kinds, i \in Calls : c' = Append(c, [k |-> k, i |-> i])
           \/ c # <<>> /\ \E k \in Own, i \in {1, 2} : c[Len(c)].k \notin Own /\ c' = Append(c, [k |-> k, i |-> i])
           \* the same call again
           \/ c # <<>> /\ c[Len(c)].k \in Kinds /\ c' = Append(c, c[Len(c)])
           \/ Len(c) > 1 /\ c[Len(c)].k \in Own /\ c' = Append(c, c[Len(c) - 1])
Tell == Len(c) = Steps /\ ~told /\ told' = TRUE /\ UNCHANGED c /\ PrintT(<<"CASE", ToJson(c)>>)
Spec == Init /\ [][Next \/ Tell]_<<c, told>>
=============================================================================
