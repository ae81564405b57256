------------------------------- MODULE Detune -------------------------------
(***************************************************************************)
(* Test data whose clock runs faster by a ratio from the first event of    *)
(* the whole file on: t |-> (t - t0)(1 + ratio) + t0 + offset, for the     *)
(* events of exactly one detector pattern.  Times in 1/256 ns.             *)
(***************************************************************************)
EXTENDS EventFile

OfPattern(e, p) == SelectSeq(e, LAMBDA x : x.p = p)

\* Is u the time t detuned by num / den (den < 2^19 squared, given as two
\* factors), up to slack in units?  Real time: t + (t - t0) num / den + off.
IsDetuned(u, t, t0, num, d1, d2, off, slack) ==
  LET x == BSub(t, t0)
      m == BMulS(BAbs(x), IF num < 0 THEN -num ELSE num)
      q == BDivS(BDivS(m, d1), d2)
      s == IF (num < 0) = BIsNeg(x) THEN q ELSE BNeg(q)
      want == BAdd(BAdd(t, s), off)
  IN BWithin(BSub(u, want), slack)
=============================================================================
