------------------------------ MODULE GenEndure -----------------------------
(* Histories of what arrives at freqcd, and of waiting.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Steps
VARIABLES c, told
In == {<<"ev", 1>>, <<"ev", 1000>>, <<"ev", 60000>>, <<"part", 1>>, <<"part", 3>>, <<"part", 7>>}
Fr == {<<"line", 1>>, <<"line", 20000>>, <<"bad", 1>>, <<"bad", 20000>>, <<"long", 60>>, <<"long", 5000>>, <<"long", 200000>>, <<"end", 0>>}
Idle == {<<"idle", 0>>}
Init == c = <<>> /\ told = FALSE
Over == \E i \in 1..Len(c) : c[i][1] = "end"
Next == /\ Len(c) < Steps /\ UNCHANGED told
        /\ \E s \in In \cup Fr \cup Idle :
             /\ s \in Fr => ~Over
             /\ s[1] = "end" => Len(c) > Steps \div 2
             /\ c' = Append(c, s)
Tell == Len(c) = Steps /\ ~told /\ told' = TRUE /\ UNCHANGED c /\ PrintT(<<"CASE", ToJson(c)>>)
Spec == Init /\ [][Next \/ Tell]_<<c, told>>
=============================================================================
