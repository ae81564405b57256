------------------------------ MODULE GenClock ------------------------------
(***************************************************************************)
(* Generates clocks to search and lists to normalise.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT MaxL
VARIABLES c, h, l, done

Init == /\ c \in [op : {"norm"}, how : {"ld", "f8", "i8"}, skip : {"none", "zero", "some", "beyond"}, rel : {0, 1}, n : 1..MaxL]
              \cup [op : {"search"}, D : {"zero", "sub", "bins", "wide", "edge"}, ds : {-1, 1},
                    F : {"zero", "below", "bin", "mid", "top"}, fs : {-1, 1}, pre : {"none", "none2", "some"}]
        /\ h = <<>> /\ l = <<>> /\ done = FALSE
Top  == /\ h = <<>> /\ c.op = "search"
        /\ h' \in [q : {14, 15, 16, 17}, R : {16, 64, 256, 1024}, k : {1, 2, 3}, sep : {2, 4, 6, 8, 12}, r : {1, 2, 4},
                   how : {"any", "any2", "any3", "big"}, legacy : {TRUE, FALSE}]
        /\ UNCHANGED <<c, l, done>>
More == /\ ~done /\ c.op = "norm" /\ Len(l) < c.n
        /\ \E n \in {1, 2, 3, 8}, at \in {"same", "near", "far", "before"} : l' = Append(l, [n |-> n, at |-> at])
        /\ UNCHANGED <<c, h, done>>
Stop == /\ ~done /\ (h # <<>> \/ (c.op = "norm" /\ Len(l) = c.n))
        /\ PrintT(<<"SCHED", ToJson([c |-> IF c.op = "norm" THEN c ELSE c @@ h, l |-> l])>>)
        /\ done' = TRUE /\ UNCHANGED <<c, h, l>>
Next == Top \/ More \/ Stop
Spec == Init /\ [][Next]_<<c, h, l, done>>
=============================================================================
