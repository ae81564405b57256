---------------------------- MODULE GenEventFile ----------------------------
(***************************************************************************)
(* Use cases of the conversion and statistics program: TLC's simulator     *)
(* picks formats, filters, file sizes and shapes; the harness turns them   *)
(* into files and command lines.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

VARIABLES c, done

SizeTok == {"none", "one", "two", "few", "some", "many"}
GapTok  == {"zero", "unit", "small", "eighth", "hours", "mixed", "onbound"}
PatTok  == {"any", "single", "nonone", "allnone", "fixed"}
TimeTok == {"off", "lo", "hi", "both", "equal", "empty", "all", "onevent"}
FltTok  == {"off", "exact", "not", "mask", "remove"}

Init ==
  /\ done = FALSE
  /\ c \in [A : {"0", "1", "2"}, a : {"0", "1", "2"}, X : {0, 1}, x : {0, 1}, mem : {0, 1},
            size : SizeTok, gap : GapTok, pats : PatTok, time : TimeTok, flt : FltTok]
Next == /\ ~done /\ PrintT(<<"SCHED", ToJson(c)>>) /\ done' = TRUE /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
