----------------------------- MODULE ClockSearch -----------------------------
(***************************************************************************)
(* What the search for the offset between two clocks has to find.          *)
(*                                                                         *)
(* The target clock shows  c + D + F (c - c0)  when the reference clock    *)
(* shows c.  Times are in 1/256 ns, F in units of 2^-50, measured results  *)
(* dt in ns and df in units of 2^-60.                                      *)
(***************************************************************************)
EXTENDS ClockArrays

\* Time from which both clocks have events, plus what is skipped.
CommonStart(fa, fb, skip) == BAdd(BMax(fa, fb), skip)

\* Offset of the target clock when the reference clock shows s (floor).
OffsetAt(D, F, c0, s) ==
  BAdd(D, BAsr(BMul(F, BSub(s, c0)), 50))

\* |dt - x/256| <= 7/2 res + 1/2, plus a little for the rounding of x
TimeWithin(dt, x, res) == BWithin(BSub(BShl(dt, 8), x), BInt(896 * res + 132))

\* |df - f| Ts <= 7/2 res  (df, f in 2^-60, Ts in ns); big errors first, so
\* that the product cannot wrap.
FreqWithin(df, f, Ts, res) ==
  LET e == BAbs(BSub(df, f)) IN
  /\ BLtU(e, BPow2(50))
  /\ BLe(BMul(e, Ts), BAdd(BMulS(BPow2(59), 7 * res), BShl(Ts, 4)))

\* The offsets seen with the roles of the clocks exchanged.
\*   dt' (1 + F) + x = 0,   f' (1 + F) + F = 0
SwappedTime(dt, F, x, res) ==
  LET y == BShl(dt, 8)                                     \* 1/256 ns
      s == BAsr(BMul(y, F), 50)
  IN BWithin(BAdd(BAdd(y, s), x), BInt(897 * res + 132))
\* f' = -F/(1+F) = -F + F^2 - F^3 ...; |F| < 2^-12 leaves F^4 < 2^-48
SwappedFreq(F) ==                                          \* in 2^-60
  LET f == BAbs(F)
      f2 == BShr(BMul(f, f), 40)                           \* F^2 in 2^-60
      f3 == BShr(BMul(f2, f), 50)                          \* |F|^3 in 2^-60
      f4 == BShr(BMul(f3, f), 50)
  IN IF BIsNeg(F) THEN BAdd(BAdd(BShl(f, 10), f2), BAdd(f3, f4))
     ELSE BAdd(BAdd(BNeg(BShl(f, 10)), f2), BSub(f4, f3))

\* Found below the limit of the correction, relative to the precompensation p
\* (both in 2^-60):  |(1 + df)/(1 + p) - 1| < 2^-13.
InBounds(df, p) ==
  LET e == BAbs(BSub(df, p)) IN
  BLeU(e, BAdd(BAdd(BPow2(47), BAsr(p, 13)), BPow2(12)))

(***************************************************************************)
(* Precompensations: multiples of the step around (or from) the start.     *)
(***************************************************************************)
Multiples(n, ordered) ==
  IF n < 0 THEN <<>>
  ELSE IF ordered = 1 THEN [i \in 1..(n + 1) |-> i - 1]
  ELSE [i \in 1..(2 * n + 1) |-> IF i % 2 = 0 THEN i \div 2 ELSE -(i \div 2)]
\* How far the multiples go; integers in any one unit.
StepsTo(start, stop, step, ordered) == IF ordered = 1 THEN (stop - start) \div step ELSE stop \div step

\* The first success of a scan, in list order; outcomes are <<>> or results.
FirstSuccess(o) == FoldLeft(LAMBDA a, x : IF a # <<>> THEN a ELSE x, <<>>, o)
=============================================================================
