------------------------------ MODULE MCFreqcd ------------------------------
(***************************************************************************)
(* The design of freqcd.c, in the small: a block-structured daemon that    *)
(* receives its input in arbitrary pieces, corrects whole events relative  *)
(* to a per-block reference with truncating integer arithmetic, and is     *)
(* told new corrections in arbitrary pieces of text, checked against the   *)
(* promise of module Freqcd.                                               *)
(*                                                                         *)
(* An event is two half-events (the real one: eight bytes).  A correction  *)
(* line is two tokens, value and newline.  Timestamps have TB bits (54),   *)
(* elapsed time is truncated by T1 bits (12) before the product and the    *)
(* product by T2 bits (22), so FRAC = T1 + T2.                             *)
(*                                                                         *)
(* Defect selects a deviation of the design; "none" must satisfy every     *)
(* invariant and each other value must violate one (the checks insist on   *)
(* both).  The first four are defects that freqcd.c had.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS TB, T1, T2, Gaps, Fs, MaxEvents, MaxUpd, Defect

\* Corrections tried: -5 is out of range when T2 = 3.
FsSmall == {-5, -3, 0, 3}
FsWide  == {-5, -4, -3, -1, 0, 2, 3, 4}

Range == 2 ^ TB
Unit  == 2 ^ (T1 + T2)                 \* 2^FRAC

IPlus(a, b)    == a + b
ITimes(e, f)   == e * f
IElapsed(t, r) == (t - r) % Range
\* distance from x to 0 modulo m
Dist(x, m)     == LET y == x % m IN IF y <= m - y THEN y ELSE m - y
INear(out, t, acc, tol) == Dist((out - t) * Unit - acc, Range * Unit) <= tol * Unit

A == INSTANCE Freqcd WITH
       Zero <- 0, Plus <- IPlus, Times <- ITimes, Elapsed <- IElapsed,
       Near <- INear, FMax <- 2 ^ (T2 - 1)

VARIABLES
  \* environment
  sent,      \* timestamps of the events of which at least half was delivered
  half,      \* has only the first half of the last one been delivered
  ftok,      \* unfinished correction text: <<>> or <<value>>
  upds,      \* number of complete correction lines delivered
  \* promise
  abs,       \* state of module Freqcd
  allowed,   \* <<promise state, timestamp>> of every event digested
  \* daemon
  part,      \* half-event kept in the input buffer
  fpart,     \* unfinished line kept in the correction buffer
  tsref, tsfrac, ovf, last, fcur,
  out        \* timestamps written
vars == <<sent, half, ftok, upds, abs, allowed, part, fpart, tsref, tsfrac, ovf, last, fcur, out>>

Init ==
  /\ sent = <<>> /\ half = FALSE /\ ftok = <<>> /\ upds = 0
  /\ \E f0 \in {v \in Fs : A!ValidF(v)} : abs = A!InitState(f0) /\ fcur = f0
  /\ allowed = <<>>
  /\ part = FALSE /\ fpart = <<>> /\ tsref = -1 /\ tsfrac = 0 /\ ovf = 0 /\ last = 0
  /\ out = <<>>

(* ----- the daemon: one block of whole events -------------------------- *)
\* Returns [out, tsref, tsfrac, ovf, last] after processing the block ts.
RECURSIVE Block(_, _, _, _, _)
Block(ts, i, ref, fr, acc) ==
  IF i > Len(ts) THEN acc
  ELSE LET raw   == IF Defect = "nomask" THEN (ts[i] - ref) ELSE (ts[i] - ref) % Range
           el    == raw \div (2 ^ T1)
           full  == el * fcur + (IF Defect = "nofrac" THEN 0 ELSE fr)
           corr  == full \div (2 ^ T2)
           o     == (ts[i] + corr + ovf) % Range
       IN Block(ts, i + 1, ref, fr,
                [out |-> Append(acc.out, o), el |-> el, full |-> full, corr |-> corr, ts |-> ts[i]])

\* Effect of one readable input: ts is the sequence of events completed by it.
RunBlock(ts, np) ==
  LET ref0 == IF tsref = -1 /\ ts # <<>> THEN ts[1] ELSE tsref
      r    == Block(ts, 1, ref0, tsfrac, [out |-> <<>>, el |-> 0, full |-> 0, corr |-> last, ts |-> 0])
  IN /\ part' = np
     /\ out' = out \o r.out
     /\ IF ts # <<>>
          THEN /\ tsref' = (IF Defect = "nofrac" THEN r.ts ELSE (ref0 + r.el * 2 ^ T1) % Range)
               /\ tsfrac' = (IF Defect = "nofrac" THEN 0 ELSE r.full % (2 ^ T2))
               /\ ovf' = ovf + r.corr
               /\ last' = r.corr
          ELSE \* nothing completed: state must not move
               /\ UNCHANGED <<tsref, tsfrac, last>>
               /\ ovf' = IF Defect = "reapply" THEN ovf + last ELSE ovf

RECURSIVE DigestAll(_, _, _)
DigestAll(s, ts, al) ==
  IF ts = <<>> THEN <<s, al>>
  ELSE LET s2 == A!Digest(s, Head(ts))
       IN DigestAll(s2, Tail(ts), Append(al, <<s2, Head(ts)>>))

(* ----- the environment ------------------------------------------------ *)
\* Timestamps of n further events, each a Gap after the one before.
LastTs == IF sent = <<>> THEN 0 ELSE sent[Len(sent)]
RECURSIVE Walk(_, _)
Walk(t, gs) == IF gs = <<>> THEN <<>>
               ELSE LET u == (t + Head(gs)) % Range IN <<u>> \o Walk(u, Tail(gs))
GapSeqs(n) == [1..n -> Gaps]

\* Time from t to the last of ts, summed event by event.  What arrives at
\* once must span less than the range of timestamps (20 hours), or nobody
\* could tell how often they rolled over.
RECURSIVE Span(_, _)
Span(t, ts) == IF ts = <<>> THEN 0 ELSE ((Head(ts) - t) % Range) + Span(Head(ts), Tail(ts))

\* Deliver h halves: they finish a pending event, then whole ones, maybe a half.
Deliver(h) ==
  \E n \in 0..2 :
    LET before == IF half THEN 1 ELSE 0
        total  == before + h
        fresh  == ((total + 1) \div 2) - before       \* newly started events
        done   == total \div 2                        \* events now complete
    IN /\ n = fresh
       /\ Len(sent) + fresh <= MaxEvents
       /\ \E gs \in GapSeqs(fresh) :
            LET new == Walk(LastTs, gs)
                all == sent \o new
                cpl == SubSeq(all, Len(sent) - before + 1, Len(sent) - before + done)
                dg  == DigestAll(abs, cpl, allowed)
            IN /\ (IF cpl = <<>> THEN 0 ELSE Span(IF Len(allowed) = 0 THEN cpl[1] ELSE allowed[Len(allowed)][2], cpl))
                    < Range - 2 ^ T1
               /\ sent' = all
               /\ half' = (total % 2 = 1)
               /\ abs' = dg[1]
               /\ allowed' = dg[2]
               /\ RunBlock(cpl, total % 2 = 1)
               /\ UNCHANGED <<ftok, upds, fpart, fcur>>

\* Correction text arrives: a whole line, its first part, or its rest.
Line(v) == /\ abs' = A!Update(abs, TRUE, v)
           /\ fcur' = IF A!ValidF(v) \/ Defect = "norange" THEN v ELSE fcur
           /\ upds' = upds + 1
FreqWhole == /\ ftok = <<>> /\ upds < MaxUpd
             /\ \E v \in Fs : Line(v)
             /\ UNCHANGED <<sent, half, ftok, allowed, part, fpart, tsref, tsfrac, ovf, last, out>>
FreqPart  == /\ ftok = <<>> /\ upds < MaxUpd
             /\ \E v \in Fs : ftok' = <<v>>
             /\ fpart' = IF Defect = "losepartial" THEN <<>> ELSE ftok'
             /\ UNCHANGED <<sent, half, upds, abs, allowed, part, tsref, tsfrac, ovf, last, fcur, out>>
FreqRest  == /\ ftok # <<>>
             /\ IF fpart = ftok THEN Line(ftok[1])
                ELSE /\ abs' = A!Update(abs, TRUE, ftok[1])
                     /\ upds' = upds + 1 /\ UNCHANGED fcur
             /\ ftok' = <<>> /\ fpart' = <<>>
             /\ UNCHANGED <<sent, half, allowed, part, tsref, tsfrac, ovf, last, out>>

DeliverIn == \E h \in 1..4 : Deliver(h)
Next == DeliverIn \/ FreqWhole \/ FreqPart \/ FreqRest
Spec == Init /\ [][Next]_vars

(* ----- promises -------------------------------------------------------- *)
TypeOK == /\ half \in BOOLEAN /\ part \in BOOLEAN
          /\ \A i \in 1..Len(out) : out[i] \in 0..(Range - 1)
\* Every complete event has been written, once, before the next wait.
Complete == Len(out) = Len(allowed) /\ Len(out) = Len(sent) - (IF half THEN 1 ELSE 0)
\* Every written timestamp is within the slack of the exact correction.
Corrected == \A i \in 1..Len(out) : A!MayEmit(allowed[i][1], allowed[i][2], out[i])
\* Out-of-range corrections never take effect.
InRange == A!ValidF(fcur)
\* The daemon's correction in force is the last complete valid line.
Agree == fcur = abs.f
\* Written output never changes.
Stable == [][\E s \in 0..Len(out') : SubSeq(out', 1, s) = out]_vars
=============================================================================
