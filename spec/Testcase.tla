------------------------------ MODULE Testcase ------------------------------
(***************************************************************************)
(* The generator of test cases: what it writes for a list of numbers, and  *)
(* what it prints for a file of events.                                    *)
(*                                                                         *)
(* A session takes numbers from the command line or from a prompt and      *)
(* writes an event with detector 1 for each, times truncated to 54 bits;   *)
(* or it lists the times of the events of a file.  Numbers are records     *)
(* [neg, v]: negative ones are no times.                                   *)
(***************************************************************************)
EXTENDS EventFile

Truncated(v) == BShr(BShl(v, 34), 34)       \* 88 - 34 = 54 bits
EventOf(v) == [t |-> Truncated(v), p |-> 1]
\* Numbers before the first that is no time.
Accepted(l) == FoldLeft(LAMBDA a, x : IF a.stop \/ x.neg = 1 THEN [a EXCEPT !.stop = TRUE]
                                      ELSE [a EXCEPT !.l = Append(@, EventOf(x.v))],
                        [l |-> <<>>, stop |-> FALSE], l)
Written(l) == Accepted(l).l
Refused(l) == Accepted(l).stop
Listed(legacy, bytes) == LET e == Events("1", legacy, bytes) IN [i \in 1..Len(e) |-> e[i].t]
=============================================================================
