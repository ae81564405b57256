---------------------------- MODULE GenEpochFile ----------------------------
(***************************************************************************)
(* Epoch files event by event: TLC's simulator picks the kind of file, the *)
(* widths, the way every event is encoded, and how the file ends.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANT MaxN
VARIABLES c, h, l, done

\* how a difference is written
DTok == {"extzero", "extone", "exttwo", "extmax", "extbig", "extsmall", "two", "max", "mid", "min3"}
PTok == {"zero", "ones", "one", "any"}

Init ==
  /\ done = FALSE /\ l = <<>> /\ h = <<>>
  /\ c \in [k : {"T1", "T2", "T4"}, width : {1, 2, 3, 5, 8, 11, 16, 17, 24, 30, 31}, bw : {0, 1, 2, 4, 7}, n : 0..MaxN]
Top  == /\ h = <<>>
        /\ h' \in [epoch : {"zero", "low", "wrap", "beforewrap", "max", "any", "named"},
                   ann : {"right", "none", "fewer", "more", "zeroed"}, tb : {"zero", "zero2", "one", "high"},
                   pad : {0, 1, 2}]
        /\ UNCHANGED <<c, l, done>>
More == /\ ~done /\ h # <<>> /\ Len(l) < c.n
        /\ \E d \in DTok, p \in PTok : l' = Append(l, [d |-> d, p |-> p])
        /\ UNCHANGED <<c, h, done>>
Stop == /\ ~done /\ h # <<>> /\ Len(l) = c.n
        /\ PrintT(<<"SCHED", ToJson([c |-> c @@ h, l |-> l])>>) /\ done' = TRUE /\ UNCHANGED <<c, h, l>>
Next == Top \/ More \/ Stop
Spec == Init /\ [][Next]_<<c, h, l, done>>
=============================================================================
