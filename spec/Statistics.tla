----------------------------- MODULE Statistics -----------------------------
(***************************************************************************)
(* Statistics of a peak in a histogram, and other views of a histogram.    *)
(* Histograms are sequences of small integers, bin i standing at i + 1.    *)
(* Real results are given in millionths (or thousandths), rounded.         *)
(***************************************************************************)
EXTENDS ClockArrays

Abs(x) == IF x < 0 THEN -x ELSE x
\* The bin of a delay c, which may be negative; c and res in one unit.
BinOfDelay(n, c, res) ==
  LET q == Abs(c) \div res IN IF c < 0 /\ q # 0 THEN n - q ELSE q
\* Bins on either side that a window covers.
HalfWindow(w, res) == (w + 2 * res - 1) \div (2 * res)

\* Bins of the signal: the window around bin p, without what lies outside.
LeftOf(p, k) == IF p > k THEN p - k ELSE 0
RightOf(n, p, k) == IF p + k < n THEN p + k ELSE n
\* a .. b as a sequence, within the histogram
Span(a, b, n) == LET e == IF b < n THEN b ELSE n - 1 IN [i \in 1..(IF e < a THEN 0 ELSE e - a + 1) |-> a + i - 1]
SignalBins(n, p, k) == Span(LeftOf(p, k), RightOf(n, p, k), n)
\* Bins of the background: on each side the half that is next to the window.
BackBins(n, p, k) == Span(LeftOf(p, k) \div 2, LeftOf(p, k) - 1, n)
                     \o Span(RightOf(n, p, k) + 1, (n + RightOf(n, p, k)) \div 2, n)
Counts(h, bins) == [i \in 1..Len(bins) |-> h[bins[i] + 1]]

Squares(h) == FoldLeft(LAMBDA a, x : a + x * x, 0, h)
\* Variance times the square of the number of bins.
Spread(h) == BSub(BInt(Len(h) * Squares(h)), BInt(Total(h) * Total(h)))

\* Is s/scale, rounded, the number x / sqrt(v)?  v > 0
IsRoot(s, x, v, scale) ==
  LET l == BMul(BMul(BInt(scale), BInt(Abs(x))), BMul(BInt(scale), BInt(Abs(x))))
      Sq(k) == BMul(BMul(BInt(k), BInt(k)), v)
      a == Abs(s)
  IN /\ a <= 1 \/ (s > 0) = (x > 0)
     /\ BLe(l, Sq(a + 1))
     /\ a <= 1 \/ BLe(Sq(a - 1), l)
\* Is s/10^6, rounded, the number x / y?  y > 0
IsRatio(s, x, y) == BWithin(BSub(BMul(BInt(s), BInt(y)), BMul(BInt(1000000), BInt(x))), BInt(y))

Million(x) == BMul(BInt(1000000), BInt(x))

Highest(sig) == Peak(sig)
\* x / sqrt(v) is the height of the signal over the background in deviations.
HeightX(sig, bg) == Len(bg) * Highest(sig) - Total(bg)
IsHeight(s, sig, bg) ==
  IF bg = <<>> \/ Spread(bg) = BZero THEN s = 0 ELSE IsRoot(s, HeightX(sig, bg), Spread(bg), 1000)

\* Signal as a whole, against the background in groups as long as the signal.
Groups(bg, L) == LET g == Len(bg) \div L IN
  [i \in 1..g |-> FoldLeft(LAMBDA a, j : a + bg[(i - 1) * L + j], 0, [j \in 1..L |-> j])]
TotalX(sig, bg) == Len(bg) * Total(sig) - Len(sig) * Total(bg)     \* times Len(bg)

\* The histogram with negative delays first; bins -n/2 .. n/2 - 1 (n even).
Turned(h) == LET n == Len(h) IN [i \in 1..n |-> h[((i - 1 + n \div 2) % n) + 1]]
TurnedBin(n, i) == i - 1 - n \div 2

\* The k highest counts, highest first.
Sorted(h) == SortSeq(h, LAMBDA x, y : x > y)
TopK(h, k) == SubSeq(Sorted(h), 1, k)

\* Pairs of events (small integers) by delay, the slow way: delays below lim.
PairBins(as, bs, dt, n, lim) ==
  LET D == [q \in (1..Len(as)) \X (1..Len(bs)) |-> bs[q[2]] - as[q[1]]]
      P == {q \in DOMAIN D : D[q] < lim}
  IN [k \in {(D[q] \div dt) % n : q \in DOMAIN D} |-> Cardinality({q \in P : (D[q] \div dt) % n = k})]
=============================================================================
