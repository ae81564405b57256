------------------------------ MODULE GenStream -----------------------------
(* Orders of asking some streams: which one is asked, how often, when one  *)
(* is begun again.                                                         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Steps, Streams
VARIABLES c, told
Init == c = <<>> /\ told = FALSE
Next == /\ Len(c) < Steps /\ UNCHANGED told
        /\ \E s \in 1..Streams, n \in {1, 2, 5}, k \in {"ask", "ask", "again"} :
             /\ k = "again" => n = 1 /\ Len(c) > 2
             /\ c' = Append(c, [k |-> k, s |-> s, n |-> n])
Tell == Len(c) = Steps /\ ~told /\ told' = TRUE /\ UNCHANGED c /\ PrintT(<<"CASE", ToJson(c)>>)
Spec == Init /\ [][Next \/ Tell]_<<c, told>>
=============================================================================
