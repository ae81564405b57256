----------------------------- MODULE GenTestcase -----------------------------
(***************************************************************************)
(* Sessions of the test case generator, picked by TLC's simulator.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

VARIABLES c, l, done

NumTok == {"zero", "one", "small", "mid", "edge", "top", "over", "huge", "same"}
Init ==
  /\ done = FALSE /\ l = <<>>
  /\ c \in [mode : {"args", "file", "stdin", "prompt"}, x : {0, 1}, o : {"none", "new", "old", "deep"},
            len : {0, 1, 2, 5, 9}, junk : {"none", "none2", "word", "negative"}, part : 0..7]
Add == /\ ~done /\ Len(l) < c.len /\ \E n \in NumTok : l' = Append(l, n) /\ UNCHANGED <<c, done>>
Stop == /\ ~done /\ Len(l) = c.len /\ done' = TRUE /\ UNCHANGED <<c, l>>
        /\ PrintT(<<"SCHED", ToJson([c |-> c, l |-> l])>>)
Next == Add \/ Stop
Spec == Init /\ [][Next]_<<c, l, done>>
=============================================================================
