------------------------------- MODULE Options -------------------------------
(***************************************************************************)
(* From fpfind's options to the search that is run.                        *)
(*                                                                         *)
(* Options come from the built-in values, a default file, a configuration  *)
(* file and the command line, the later ones taking precedence; flags are  *)
(* on if given anywhere.  s, S are in 1/16, Z in 1/1024 s, precompensations*)
(* in 2^-60, events in 1/256 ns.                                           *)
(***************************************************************************)
EXTENDS Plot

BuiltIn == [k |-> 1, q |-> 26, R |-> 16, r |-> 1, s |-> 96, S |-> 96, Z |-> 0, z |-> 0,
            P |-> 0, ordered |-> 0, full |-> 0, X |-> 0, e |-> 0,
            t |-> 0, T |-> 0, d |-> 0, D |-> 0]      \* files: 0 is none
Flags == {"P", "ordered", "full", "X"}

\* given: sequence of [o |-> option, s |-> source (1, 2, 3), v |-> value]
GivenOr(given, o, else) ==
  LET all == SelectSeq(given, LAMBDA g : g.o = o)
      best == FoldLeft(LAMBDA a, g : IF a.s <= g.s THEN g ELSE a, [o |-> o, s |-> 0, v |-> else], all)
  IN best.v
Value(given, o) == GivenOr(given, o, BuiltIn[o])

\* Window of the correlation and the separation of two of them.
WindowNs(k, q, R) == BShl(BMulS(BInt(R), k), q)
SeparationNs16(s, k, q, R) == BMulS(WindowNs(k, q, R), s)

\* Epochs read: those that separation and window need from any place within
\* the first epoch.
EpochsNeeded(s, k, q, R) ==
  LET x == BMulS(WindowNs(k, q, R), s + 16)          \* 1/16 ns; an epoch is 2^33 of them
  IN BToInt(BShr(BAdd(x, BSub(BPow2(33), BInt(1))), 33)) + 1

\* v lists the precompensations from start in multiples of step: as many as
\* are within the stop value, which a multiple may miss by tol.
IsPrecomp(v, start, step, stop, ordered, tol) ==
  LET n == IF ordered = 1 THEN Len(v) - 1 ELSE Len(v) \div 2
      span == IF ordered = 1 THEN BSub(stop, start) ELSE stop
      At(i) == IF ordered = 1 THEN i - 1 ELSE IF i % 2 = 0 THEN i \div 2 ELSE -(i \div 2)
  IN /\ ordered = 1 \/ Len(v) % 2 = 1
     /\ BLe(BMulS(step, n), BAdd(span, BInt(tol)))
     /\ BLt(span, BSub(BMulS(step, n + 1), BInt(tol)))
     /\ \A i \in 1..Len(v) : BWithin(BSub(v[i], BAdd(start, BMulS(step, At(i)))), BInt(tol))
=============================================================================
