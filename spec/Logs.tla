-------------------------------- MODULE Logs --------------------------------
(***************************************************************************)
(* Loggers and where their messages go.  A logger that was set up has a    *)
(* level and outputs: the standard error, and files added to it later.  A  *)
(* message of its level or above appears once in each of the outputs it    *)
(* has at that time, in the order said, and nowhere else.                  *)
(*                                                                         *)
(* A message is laid out in lines: its head (time, level, place), then     *)
(* text.  Details follow behind the text, or, for human readers, below it  *)
(* in lines of their own, aligned, and further to the right than the text. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Names, Files, Steps, Defect

Levels == [debug |-> 10, info |-> 20, warning |-> 30, error |-> 40, critical |-> 50]
LevelOf(label) == IF label \in {"debug", "info", "warning", "error"} THEN Levels[label] ELSE 30
Verbose(v) == IF v = 0 THEN 30 ELSE IF v = 1 THEN 20 ELSE 10

\* What a message looks like: m has level, func, line, pad (spaces before the text), text,
\* kind ("" without details), details (a sequence of [pad, text]).
HeadLine(m, pad, text) == [head |-> 1, level |-> m.level, func |-> m.func, line |-> m.line, pad |-> pad, text |-> text, kind |-> "", details |-> <<>>]
Below(m, d) == [head |-> 0, level |-> m.level, func |-> m.func, line |-> m.line, pad |-> m.pad + 2 + d.pad, text |-> d.text, kind |-> "", details |-> <<>>]
Lines(m, human) ==
  IF m.kind = "" THEN <<HeadLine(m, m.pad, m.text)>>
  ELSE IF ~human THEN <<[HeadLine(m, m.pad, m.text) EXCEPT !.kind = m.kind, !.details = m.details]>>
  ELSE IF Len(m.details) = 0 THEN <<HeadLine(m, m.pad, m.text)>>
  ELSE LET D == [i \in 1..Len(m.details) |-> Below(m, m.details[i])]
       IN IF m.text = "" THEN <<[D[1] EXCEPT !.head = 1]>> \o SubSeq(D, 2, Len(D))
          ELSE <<HeadLine(m, m.pad, m.text)>> \o D

-----------------------------------------------------------------------------
VARIABLES
  level,   \* of every logger, 0 if it was not set up
  outs,    \* outputs of every logger
  text,    \* numbers of messages in every output
  said,    \* all messages: the outputs that should have them
  n        \* steps done
vars == <<level, outs, text, said, n>>
Outputs == {"err"} \cup Files

Init ==
  /\ level = [x \in Names |-> 0] /\ outs = [x \in Names |-> <<>>]
  /\ text = [o \in Outputs |-> <<>>] /\ said = <<>> /\ n = 0

Get(x, v) ==
  /\ level' = [level EXCEPT ![x] = IF Defect = "stuck" /\ @ # 0 THEN @ ELSE Verbose(v)]
  /\ outs' = [outs EXCEPT ![x] = IF Len(@) = 0 \/ Defect = "again" THEN Append(@, "err") ELSE @]
  /\ UNCHANGED <<text, said>>

Free(f) == \A x \in Names : \A i \in 1..Len(outs[x]) : outs[x][i] # f
File(x, f) ==
  /\ level[x] # 0 /\ Free(f)
  /\ outs' = [outs EXCEPT ![x] = IF Defect = "instead" THEN <<f>> ELSE Append(@, f)]
  /\ UNCHANGED <<level, text, said>>

\* a message of logger x, of some level
Shown(x, l) == l >= level[x]
Times(x, o) == Cardinality({i \in 1..Len(outs[x]) : outs[x][i] = o})
RECURSIVE Rep(_, _)
Rep(v, k) == IF k = 0 THEN <<>> ELSE Append(Rep(v, k - 1), v)
Log(x, l) ==
  /\ level[x] # 0
  /\ LET id == Len(said) + 1
         to == IF ~Shown(x, l) THEN {} ELSE {outs[x][i] : i \in 1..Len(outs[x])}
     IN /\ said' = Append(said, [to |-> IF Shown(x, l) THEN {"err"} \cup to ELSE {}])
        /\ text' = [o \in Outputs |->
             text[o] \o (IF Defect = "below" /\ l >= level[x] - 10 /\ o \in Files THEN Rep(id, Times(x, o))
                         ELSE IF Defect = "parent" /\ Shown(x, l)
                         THEN Rep(id, Times(x, o) + Cardinality({y \in Names \ {x} : Times(y, o) > 0}))
                         ELSE IF o \in to THEN Rep(id, Times(x, o)) ELSE <<>>)]
  /\ UNCHANGED <<level, outs>>

Next == /\ n < Steps /\ n' = n + 1
        /\ \/ \E x \in Names, v \in 0..2 : Get(x, v)
           \/ \E x \in Names, f \in Files : File(x, f)
           \/ \E x \in Names, l \in {10, 20, 30} : Log(x, l)
Spec == Init /\ [][Next]_vars

RECURSIVE Due(_, _)
Due(o, k) == IF k = 0 THEN <<>> ELSE Due(o, k - 1) \o (IF o \in said[k].to THEN <<k>> ELSE <<>>)
EachOnce == \A o \in Outputs : text[o] = Due(o, Len(said))
Told == \A x \in Names : level[x] # 0 => outs[x] # <<>> /\ outs[x][1] = "err"
\* the level is the one asked for last
Heeded == [][\A x \in Names : \A v \in 0..2 : Get(x, v) => level'[x] = Verbose(v)]_vars
=============================================================================
