------------------------------- MODULE GenJob -------------------------------
(* All jobs with at most Faults things in their way.                       *)
EXTENDS Job, FiniteSets, TLC, Json
CONSTANT Faults
VARIABLE c

J(prog, srcs, dst, opts, whole) == [prog : prog, srcs : srcs, dst : dst, opts : opts, whole : whole]
One(S) == {<<a>> : a \in S}
Two(S) == {<<a, b>> : a \in S, b \in S}
Raw == {"ok", "missing", "kind", "empty", "half"}
Dirs == {"ok", "missing", "kind", "empty", "gap", "cut"}
Files == {"new", "old", "nodir", "kind", "full"}
Search == {"ok", "first", "second", "none", "choice", "type", "unknown", "nolog", "noconfig"}
All ==
  J({"convert"}, One(Raw \cup {"text"}), Files \cup {"same", "unsaid"}, {"ok", "noformat", "choice", "type", "unknown"}, {0, 1})
  \cup J({"report"}, One(Raw \cup {"text"}), {"console", "full"}, {"ok", "noformat", "choice", "type", "unknown"}, {0, 1})
  \cup J({"find"}, Two(Raw), {"console", "full"}, Search \cup {"crossed"}, {0})
  \cup J({"findep"}, Two(Dirs), {"console", "full"}, Search \cup {"beyond", "noepoch"}, {0})
  \cup J({"plot"}, Two(Raw), {"new", "old", "nodir"}, {"ok", "first", "second", "none", "crossed"}, {1})
  \cup J({"plotep"}, Two(Dirs), {"new", "old", "nodir"}, {"ok", "first", "second", "beyond"}, {1})
  \cup J({"list"}, One(Raw), {"console", "full"}, {"ok", "unknown"}, {0})
  \cup J({"list"}, One({"ok", "empty", "half"}), {"console", "full"}, {"ok", "unknown"}, {1})
  \cup J({"emit"}, One({"ok", "half"}), Files \cup {"console"}, {"ok", "type", "unknown"}, {0})
  \cup J({"correct"}, {<<a, b>> : a \in {"ok", "missing", "kind", "empty"}, b \in {"ok", "missing", "kind", "unused"}}, Files \cup {"console", "same"},
         {"ok", "first", "second", "none", "type", "unknown"}, {0})

InTheWay(j) ==
    Cardinality({i \in 1..Len(j.srcs) : ~Usable(j.prog, j.srcs[i])})
  + (IF j.opts = "ok" THEN 0 ELSE 1)
  + (IF Doable([j EXCEPT !.opts = "ok", !.srcs = <<"ok">>]) THEN 0 ELSE 1)

\* No events: nothing needs to be written, so that it does not matter that
\* nothing can be.
\* Nor does it matter what the corrections are.
Moot(j) == \/ j.dst = "full" /\ j.srcs[1] = "empty" /\ j.prog \in {"convert", "list", "correct"}
           \/ j.prog = "correct" /\ j.srcs[1] = "empty" /\ j.srcs[2] = "kind"

Init == c \in {j \in All : InTheWay(j) <= Faults /\ ~Moot(j)}
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c
Tell == PrintT(<<"CASE", ToJson(c)>>)
=============================================================================
