----------------------------- MODULE GenFreqcd -----------------------------
(***************************************************************************)
(* The environment of freqcd: every schedule of deliveries it may meet.    *)
(* TLC's simulator walks it and prints each schedule as JSON; the harness  *)
(* turns the symbolic sizes and values into bytes and plays them into the  *)
(* real program.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Depth, WithFreq, WithFault

InTok   == {"none", "b1", "b3", "b4", "b7", "b8", "rest", "b9", "b12", "ev2", "ev3", "ev9"}
GapTok  == {"zero", "one", "sub", "mid", "sec", "hour", "top"}
FqTok   == {"none", "whole", "two", "part", "rest", "bad", "badpart", "range", "empty"}
WrTok   == {"ok", "short", "err"}

VARIABLES h, part, fpart, done
vars == <<h, part, fpart, done>>

Init == h = <<>> /\ part = FALSE /\ fpart = FALSE /\ done = FALSE

\* "rest" needs something to complete.
InOK(i)  == i = "rest" => part
FqOK(f)  == IF WithFreq THEN (f = "rest") => fpart ELSE f = "none"

Deliver ==
  /\ ~done /\ Len(h) < Depth
  /\ \E i \in InTok, g \in GapTok, f \in FqTok :
       /\ InOK(i) /\ FqOK(f)
       /\ h' = Append(h, [i |-> i, g |-> g, f |-> f, w |-> "ok"])
       /\ part' = IF i = "none" THEN part ELSE i \in {"b1", "b3", "b4", "b7", "b9", "b12"} \/ (i \in {"b8", "ev2", "ev3", "ev9"} /\ part)
       /\ fpart' = IF f = "none" THEN fpart ELSE f \in {"part", "badpart"}
       /\ UNCHANGED done

\* A fault: a wait or read that fails, a write cut short or refused.
Fault ==
  /\ WithFault /\ ~done /\ Len(h) >= 1
  /\ \E i \in InTok, g \in GapTok, w \in {"short", "err", "readerr", "waiterr", "freqerr"} :
       /\ InOK(i) /\ i # "none"
       /\ h' = Append(h, [i |-> i, g |-> g, f |-> "none", w |-> w])
  /\ UNCHANGED <<part, fpart, done>>

Stop == /\ ~done /\ Len(h) = Depth
        /\ PrintT(<<"SCHED", ToJson(h)>>)
        /\ done' = TRUE /\ UNCHANGED <<h, part, fpart>>

FaultOnce == WithFault /\ Len(h) = Depth - 1
Next == (IF FaultOnce THEN Fault ELSE Deliver) \/ Stop
Spec == Init /\ [][Next]_vars
=============================================================================
