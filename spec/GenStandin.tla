----------------------------- MODULE GenStandin -----------------------------
(* Histories of Steps steps: calls of the stand-in and of the program.     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Steps, Kinds, Hows, Cwds, Argss, Tools, Shuts, Kills, Ns
VARIABLES c, told

Init == c = <<>> /\ told = FALSE
Next == /\ Len(c) < Steps /\ UNCHANGED told
        /\ \E kind \in Kinds, how \in Hows, cwd \in Cwds, args \in Argss, tool \in Tools, shut \in Shuts, kill \in Kills, n \in Ns :
             /\ cwd = "work" \/ args \notin {"file", "odd"}       \* relative names are of files in the working directory
             /\ kind # "call" => how \in {"abs", "rel"} /\ cwd = "package" /\ args = "pipe"
             /\ kind = "here" => how = "rel" /\ shut = 0
             /\ kill = 1 => tool = "ok" /\ shut = 0
             /\ c' = Append(c, [kind |-> kind, how |-> how, cwd |-> cwd, args |-> args, tool |-> tool, shut |-> shut, kill |-> kill, n |-> n])
Tell == Len(c) = Steps /\ ~told /\ told' = TRUE /\ UNCHANGED c /\ PrintT(<<"CASE", ToJson(c)>>)
Spec == Init /\ [][Next \/ Tell]_<<c, told>>
=============================================================================
