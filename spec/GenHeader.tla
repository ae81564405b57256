----------------------------- MODULE GenHeader -----------------------------
(* All kinds of headers, as choices for the harness to fill in.            *)
EXTENDS TLC, Json
VARIABLE c
Tags == {"short", "long", "kin", "zero", "high", "neg", "swapped"}
NamesOf == {"own", "next", "upper", "zero", "cut", "longer", "prefixed", "dir"}
Init == c \in [kind : {"T1", "T2", "T3", "T4"}, whole : {0, 1}, tag : Tags, name : NamesOf, size : {"own", "less", "more", "none", "cut"}]
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c
Tell == PrintT(<<"CASE", ToJson(c)>>)
=============================================================================
