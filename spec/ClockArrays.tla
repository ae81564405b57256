----------------------------- MODULE ClockArrays -----------------------------
(***************************************************************************)
(* Time-ordered event lists of the two clocks, their normalisation, their  *)
(* binning, and the correlation whose peak is the delay between them.      *)
(* Times are BigNum integers in units of 1/256 ns; histograms are          *)
(* sequences of small integers, bin k standing at index k + 1.             *)
(***************************************************************************)
EXTENDS BigNum, FiniteSets, SequencesExt

Shifted(ts, o) == [i \in 1..Len(ts) |-> BSub(ts[i], o)]

\* Events from `start' (or the first event) on, for `dur'.
Window(ts, hasstart, start, hasdur, dur) ==
  IF ts = <<>> THEN <<>>
  ELSE LET s == Shifted(ts, IF hasstart = 1 THEN start ELSE ts[1])
           k == IF hasstart = 1 THEN SelectSeq(s, LAMBDA x : ~BIsNeg(x)) ELSE s
       IN IF hasdur = 1 THEN SelectSeq(k, LAMBDA x : BLt(x, dur)) ELSE k

BMax(a, b) == IF BLt(a, b) THEN b ELSE a

\* All lists on the latest of their first events plus `skip'.
Normalised(T, skip, rel) ==
  LET U == IF rel = 1 THEN T ELSE [j \in 1..Len(T) |-> Window(T[j], 0, BZero, 0, BZero)]
      o == FoldLeft(LAMBDA a, t : BMax(a, t[1]), U[1][1], U)
  IN [j \in 1..Len(T) |-> Window(U[j], 1, BAdd(o, skip), 0, BZero)]

\* The bin (0 .. n - 1) of an event at time t >= 0.
BinOf(t, res, n) == BModS(BDivS(t, res), n)
Histogram(ts, res, n) ==
  FoldLeft(LAMBDA h, t : [h EXCEPT ![BinOf(t, res, n) + 1] = @ + 1], [k \in 1..n |-> 0], ts)

Total(h) == FoldLeft(LAMBDA a, x : a + x, 0, h)

\* Pairs whose second event is k bins later, for every k.
Correlation(ha, hb) ==
  LET n == Len(ha)
      At(k) == FoldLeft(LAMBDA a, i : a + ha[i] * hb[((i - 1 + k) % n) + 1], 0, [i \in 1..n |-> i])
  IN [k \in 1..n |-> At(k - 1)]

Peak(h) == FoldLeft(LAMBDA a, x : IF x > a THEN x ELSE a, h[1], h)
Peaks(h) == {p \in 0..(Len(h) - 1) : h[p + 1] = Peak(h)}

\* The two delays a peak at bin p of n stands for, smaller magnitude first
\* (in either order if they are equally small), in bins.
Candidates(p, n) ==
  IF p = 0 THEN {<<0, 0>>}
  ELSE IF 2 * p < n THEN {<<p, p - n>>}
  ELSE IF 2 * p > n THEN {<<p - n, p>>}
  ELSE {<<p, p - n>>, <<p - n, p>>}

\* Background of a peak at bin p: the half of the spectrum around it.
Background(h, p) ==
  LET n == Len(h)
      k == SelectSeq([i \in 1..n |-> i - 1], LAMBDA i : (p \div 2 <= i /\ i < p) \/ (p < i /\ i <= (n + p) \div 2))
  IN [j \in 1..Len(k) |-> h[k[j] + 1]]

\* Is s1000/1000 the height of peak p over its background in standard
\* deviations, rounded to three decimals?  (p - mean)/dev = x/sqrt(v)/n0.
IsSignificance(h, p, s1000) ==
  LET b == Background(h, p)
      m == Len(b)
      sum == Total(b)
      v == BSub(BInt(m * FoldLeft(LAMBDA a, x : a + x * x, 0, b)), BInt(sum * sum))
      x == m * h[p + 1] - sum                     \* >= 0
      \* s = x / sqrt(v):  (s1000 - 1)^2 v <= (1000 x)^2 <= (s1000 + 1)^2 v
      l == BMul(BInt(1000 * x), BInt(1000 * x))
      Sq(k) == BMul(BMul(BInt(k), BInt(k)), v)
  IN IF v = BZero THEN s1000 = 0
     ELSE /\ BLe(l, Sq(s1000 + 1))
          /\ s1000 <= 1 \/ BLe(Sq(s1000 - 1), l)
=============================================================================
