------------------------------ MODULE Session -------------------------------
(***************************************************************************)
(* A long-running user of the library: one process that calls functions    *)
(* again and again, on arrays of its own and on files that it, or another  *)
(* program, changes in between.  What a call answers is a function of what *)
(* is passed to it: of the values of the arrays and of the contents of the *)
(* files at the time of the call.  Nothing that was called earlier, with   *)
(* success or without, changes an answer, and no call changes anything of  *)
(* its caller's, but the file that it was told to write.                   *)
(*                                                                         *)
(* Values are pairs <<origin, option>>: reading file contents v with       *)
(* option o gives <<v, o>>; computing with option o on a cell x answers    *)
(* <<x, o>>.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Cells, Files, Vals, Options, MaxSteps, Defect

None == <<"none">>
VARIABLES
  heap,    \* what the caller's arrays hold
  disk,    \* what is in the files
  own,     \* what the caller's arrays should hold: written by the caller's own steps only
  last,    \* the last answer, and the one that is right
  n,
  hidden   \* what an implementation keeps from call to call
vars == <<heap, disk, own, last, n, hidden>>

Start == [copy |-> [f \in Files |-> [of |-> None, val |-> None]], \* of the last reading of every file
          holder |-> [f \in Files |-> "nobody"],                 \* the cell that got it
          option |-> 0, left |-> 0, count |-> 0]

Init ==
  /\ heap = [c \in Cells |-> <<0, 0>>] /\ own = heap
  /\ disk = [f \in Files |-> 0]
  /\ last = [got |-> None, want |-> None]
  /\ n = 0 /\ hidden = Start

Step == n < MaxSteps /\ n' = n + 1

\* The option that takes effect.
Effective(o) == IF Defect = "sticky" /\ hidden.option > 0 THEN hidden.option ELSE o
Called(h, o) == [h EXCEPT !.option = IF o > 0 THEN o ELSE @, !.count = @ + 1]

Read(f, c, o) ==
  LET ideal == <<disk[f], o>>
      kept  == hidden.copy[f]
      hit   == \/ Defect = "cached" /\ kept.of # None
               \/ Defect = "shared" /\ kept.of = ideal
      got   == IF hit THEN kept.val ELSE <<disk[f], Effective(o)>>
  IN /\ Step
     /\ heap' = [heap EXCEPT ![c] = got]
     /\ own' = [own EXCEPT ![c] = ideal]
     /\ last' = [got |-> got, want |-> ideal]
     /\ hidden' = [Called(hidden, o) EXCEPT !.copy[f] = IF hit THEN @ ELSE [of |-> ideal, val |-> got], !.holder[f] = c]
     /\ UNCHANGED disk

Compute(c, o) ==
  LET ideal == <<own[c], o>>
      got   == IF Defect = "leftover" /\ hidden.left > 0 THEN None
               ELSE IF Defect = "counting" /\ hidden.count > 1 THEN <<heap[c], o, hidden.count>>
               ELSE <<heap[c], Effective(o)>>
  IN /\ Step
     /\ last' = [got |-> got, want |-> ideal]
     /\ heap' = IF Defect = "inplace" THEN [heap EXCEPT ![c] = <<"changed">>] ELSE heap
     /\ hidden' = Called(hidden, o)
     /\ UNCHANGED <<own, disk>>

\* A call that is in error.
Fail == Step /\ last' = [got |-> None, want |-> None] /\ hidden' = [hidden EXCEPT !.left = 1] /\ UNCHANGED <<heap, own, disk>>

\* The caller changes an array of its own, in place.
Edit(c, v) ==
  /\ Step
  /\ heap' = [heap EXCEPT ![c] = <<v, 9>>] /\ own' = [own EXCEPT ![c] = <<v, 9>>]
  /\ hidden' = IF Defect = "shared"
               THEN [hidden EXCEPT !.copy = [f \in Files |-> IF hidden.holder[f] = c THEN [@[f] EXCEPT !.val = <<v, 9>>] ELSE @[f]]]
               ELSE hidden
  /\ UNCHANGED <<disk, last>>

Rewrite(f, v) == Step /\ disk' = [disk EXCEPT ![f] = v] /\ UNCHANGED <<heap, own, last, hidden>>

\* A call writes an array to a file.
Write(c, f, v) ==
  /\ Step /\ disk' = [disk EXCEPT ![f] = v]
  /\ heap' = IF Defect = "inplace" THEN [heap EXCEPT ![c] = <<"changed">>] ELSE heap
  /\ hidden' = Called(hidden, 0)
  /\ UNCHANGED <<own, last>>

Next ==
  \/ \E f \in Files, c \in Cells, o \in Options : Read(f, c, o)
  \/ \E c \in Cells, o \in Options : Compute(c, o)
  \/ Fail
  \/ \E c \in Cells, v \in Vals : Edit(c, v)
  \/ \E f \in Files, v \in Vals : Rewrite(f, v)
  \/ \E c \in Cells, f \in Files, v \in Vals : Write(c, f, v)

Pure == last.got = last.want
Untouched == heap = own
=============================================================================
