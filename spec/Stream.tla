------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* Files read in batches: some streams over files of Total events, each    *)
(* handing out batches of Batch events when asked, and a consumer that     *)
(* drops every batch for the next one and puts out its events (a           *)
(* conversion).  However long the files, no more is read than was asked    *)
(* for and a batch ahead, no more than Ahead batches are held, and what    *)
(* goes in comes out before much more is read.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Streams, Total, Batch, Ahead, Defect

VARIABLES
  read,    \* events read from the file of every stream
  given,   \* batches handed out
  held,    \* batches, as <<stream, number>>, that something still refers to
  out      \* events put out, per stream
vars == <<read, given, held, out>>

Least(a, b) == IF a < b THEN a ELSE b
BatchesOf(total, batch) == (total + batch - 1) \div batch
SizeOf(total, batch, k) == Least(k * batch, total) - Least((k - 1) * batch, total)
Batches == BatchesOf(Total, Batch)
Size(k) == SizeOf(Total, Batch, k)

Init == read = [s \in Streams |-> 0] /\ given = [s \in Streams |-> 0] /\ held = {} /\ out = [s \in Streams |-> 0]

\* The consumer is done with the batch it has, and asks for another one.
Ask(s) ==
  /\ given[s] < Batches
  /\ given' = [given EXCEPT ![s] = @ + 1]
  /\ read' = [read EXCEPT ![s] =
       IF Defect = "whole" THEN Total
       ELSE IF Defect = "faster" THEN Least(Total, 2 * (given[s] + 1) * Batch + Batch)
       ELSE Least(Total, (given[s] + 1) * Batch)]
  /\ held' = (IF Defect = "kept" THEN held ELSE {b \in held : b[1] # s}) \cup
             (IF Defect = "whole" THEN {<<s, k>> : k \in given[s] + 1..Batches} ELSE {<<s, given[s] + 1>>})
  /\ out' = [out EXCEPT ![s] = IF Defect = "late" THEN (IF given[s] + 1 = Batches THEN Total ELSE 0)
                              ELSE @ + Size(given[s] + 1)]

Next == \E s \in Streams : Ask(s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

ReadOk(r, g) == r <= (g + 1) * Batch
NotAhead == \A s \in Streams : ReadOk(read[s], given[s])
FewHeld == \A s \in Streams : Cardinality({b \in held : b[1] = s}) <= Ahead
ComesOut == \A s \in Streams : read[s] - out[s] <= 2 * Batch
AllDone == <>(\A s \in Streams : given[s] = Batches /\ out[s] = Total)
=============================================================================
