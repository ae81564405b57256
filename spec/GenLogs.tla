------------------------------ MODULE GenLogs -------------------------------
(* Histories of loggers (names one within another), files and messages.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Steps
VARIABLES c, told
Names == {"a", "a.b", "c"}
Init == c = <<>> /\ told = FALSE
Step ==
  [k : {"get"}, x : Names, v : {"debug", "info", "warning", "error", "none", "other"}] \cup
  [k : {"verb"}, x : Names, v : {"0", "1", "2", "5"}] \cup
  [k : {"file"}, x : Names, v : {"f", "g"}] \cup
  [k : {"log"}, x : Names, v : {"debug", "info", "warning", "error", "critical"}] \cup
  [k : {"more"}, x : Names, v : {"debug", "info", "warning"}]
Got(x) == \E i \in 1..Len(c) : c[i].k = "get" /\ c[i].x = x
Next == /\ Len(c) < Steps /\ UNCHANGED told
        /\ \E s \in Step : /\ s.k # "get" => Got(s.x)
                           /\ s.k = "file" => \A i \in 1..Len(c) : ~(c[i].k = "file" /\ c[i].v = s.v)
                           /\ c' = Append(c, s)
Tell == Len(c) = Steps /\ ~told /\ told' = TRUE /\ UNCHANGED c /\ PrintT(<<"CASE", ToJson(c)>>)
Spec == Init /\ [][Next \/ Tell]_<<c, told>>
=============================================================================
