--------------------------- MODULE TraceStatistics ---------------------------
(***************************************************************************)
(* Checks recorded statistics and histograms against Statistics.           *)
(***************************************************************************)
EXTENDS Statistics, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACE).runs
VARIABLES run, done
vars == <<run, done>>

FirstOf(l) == LET q == SelectSeq(l, LAMBDA x : x # "") IN IF q = <<>> THEN "" ELSE q[1]

\* A number <<1, value>> or none, <<0, 0>>.
IsNone(x) == x[1] = 0
Num(x, ok) == ~IsNone(x) /\ ok

Numbers(R, sig, bg) ==
  LET m == Len(bg)
      L == Len(sig)
      g == Groups(bg, L)
      all == sig \o bg
  IN FirstOf(<<
    IF R.sig # sig THEN "the signal is not the window around the peak" ELSE "",
    IF R.bg # bg THEN "the background is wrong" ELSE "",
    IF ~Num(R.max, R.max[2] = 1000000 * Highest(sig)) THEN "the peak is not the highest bin" ELSE "",
    IF m = 0 THEN IF ~(IsNone(R.mean) /\ IsNone(R.dev) /\ IsNone(R.total) /\ IsNone(R.g2)) THEN "there are results without a background" ELSE ""
    ELSE FirstOf(<<
      IF ~Num(R.mean, IsRatio(R.mean[2], Total(bg), m)) THEN "the mean of the background is wrong" ELSE "",
      IF ~Num(R.dev, IF Spread(bg) = BZero THEN R.dev[2] = 0
                     ELSE LET l == BMul(BMul(BInt(1000000), BInt(1000000)), Spread(bg))
                              Sq(k) == BMul(BMul(BInt(k), BInt(k)), BInt(m * m))
                          IN BLe(l, Sq(R.dev[2] + 1)) /\ BLe(Sq(IF R.dev[2] = 0 THEN 0 ELSE R.dev[2] - 1), l)) THEN "the deviation of the background is wrong" ELSE "",
      IF ~Num(R.total, IsRatio(R.total[2], TotalX(sig, bg), m)) THEN "the total of the signal is wrong" ELSE "",
      IF Total(bg) = 0 THEN IF ~IsNone(R.g2) THEN "there is a ratio to no background" ELSE ""
      ELSE IF ~Num(R.g2, IsRatio(R.g2[2], Highest(sig) * m, Total(bg))) THEN "the ratio to the background is wrong" ELSE "">>),
    IF ~Num(R.s, IsHeight(R.s[2], sig, bg)) THEN "the significance is wrong" ELSE "",
    IF m = 0 \/ Spread(bg) = BZero THEN IF ~IsNone(R.raw) \/ ~IsNone(R.s2) THEN "there are significances without deviations" ELSE ""
    ELSE FirstOf(<<
      IF ~Num(R.raw, IF Spread(all) = BZero THEN TRUE
                     ELSE IsRoot(R.raw[2], Len(all) * Highest(all) - Total(all), Spread(all), 1000)) THEN "the raw significance is wrong" ELSE "",
      IF Len(g) = 0 \/ Spread(g) = BZero THEN IF ~IsNone(R.s2) THEN "there is a grouped significance without groups" ELSE ""
      ELSE IF ~Num(R.s2, IsRoot(R.s2[2], TotalX(sig, bg) * Len(g), BMul(Spread(g), BInt(m * m)), 1000)) THEN "the grouped significance is wrong" ELSE "">>)>>)

\* centre and window given in units, the resolution being res units
Stats(R) ==
  LET n == Len(R.h)
      k == HalfWindow(R.w, R.res)
      Try(p) == Numbers(R, Counts(R.h, SignalBins(n, p, k)), Counts(R.h, BackBins(n, p, k)))
  IN IF R.plain = 1 THEN Numbers(R, R.h, R.h)
     ELSE IF R.hasc = 1 THEN Try(BinOfDelay(n, R.c, R.res))
     ELSE IF \E p \in Peaks(R.h) : Try(p) = "" THEN "" ELSE Try(CHOOSE p \in Peaks(R.h) : \A q \in Peaks(R.h) : p <= q)

Turn(R) ==
  LET n == Len(R.h) IN FirstOf(<<
    IF R.o # Turned(R.h) THEN "a converted histogram is not the same with negative delays first" ELSE "",
    IF R.t # [i \in 1..n |-> R.res * TurnedBin(n, i)] THEN "a converted histogram has wrong delays" ELSE "">>)

\* o: sequence of <<count, delay, delay>>
Top(R) ==
  LET n == Len(R.h)
      Fits(x, p) == R.h[p + 1] = x[1] /\ \E c \in Candidates(p, n) : x[2] = c[1] * R.res /\ x[3] = c[2] * R.res
      Bins == [i \in 1..Len(R.o) |-> {p \in 0..(n - 1) : Fits(R.o[i], p)}]
  IN FirstOf(<<
    IF Len(R.o) # R.k THEN "there are not as many delays as asked for" ELSE "",
    IF [i \in 1..Len(R.o) |-> R.o[i][1]] # TopK(R.h, R.k) THEN "these are not the highest bins, highest first" ELSE "",
    IF \E i \in 1..Len(R.o) : Bins[i] = {} THEN "a delay is not that of its bin" ELSE "",
    IF \E i, j \in 1..Len(R.o) : i # j /\ R.o[i] = R.o[j] THEN "a bin is given twice" ELSE "">>)

\* A filter in frequency: factors of one (1) or two (2), or no constant part
\* (3, times the number of bins).  Counts are magnitudes.
ByFilter(f, c) == IF f < 2 THEN c ELSE IF f = 2 THEN [i \in 1..Len(c) |-> 2 * c[i]]
                  ELSE LET t == Total(c) IN [i \in 1..Len(c) |-> Abs(Len(c) * c[i] - t)]

\* Times of a in units, those of b in units once multiplied by fn/fd.
Corr(R) ==
  LET first == BMax(R.a[1], R.b[1])
      o == BAdd(first, R.start)
      sa == Shifted(R.a, o)
      sb == Shifted(R.b, o)
      up == [i \in 1..Len(sa) |-> BMulS(sa[i], R.fd)]
      co == [i \in 1..Len(sb) |-> BMulS(sb[i], R.fn)]
      dur == BMulS(BMulS(BInt(R.res), R.fd), R.n * R.wraps)
      ka == Window(up, 1, BZero, 1, dur)
      kb == Window(co, 1, BZero, 1, dur)
      res == R.res * R.fd
      c == ByFilter(R.filter, Correlation(Histogram(ka, res, R.n), Histogram(kb, res, R.n)))
  IN IF R.err = 1 THEN IF ka = <<>> \/ kb = <<>> THEN "" ELSE "events were refused"
     ELSE IF ka = <<>> \/ kb = <<>> THEN "no events were not reported"
     ELSE FirstOf(<<
       IF R.same # 1 THEN "the events given were modified" ELSE "",
       IF R.exact # 1 \/ R.y # c THEN "the histogram is not that of the pairs in the window" ELSE "",
       IF R.t # [i \in 1..R.n |-> (i - 1) * R.res] THEN "the delays of the bins are wrong" ELSE "",
       IF R.stats = 1 /\ (R.na # Len(ka) \/ R.nb # Len(kb)) THEN "the numbers of events are wrong" ELSE "",
       IF R.stats = 1 THEN LET k == HalfWindow(R.w, R.res)
                               Is(p) == R.sig = Counts(c, SignalBins(R.n, p, k)) /\ R.bg = Counts(c, BackBins(R.n, p, k))
                           IN IF ~\E p \in (IF R.hasc = 1 THEN {BinOfDelay(R.n, R.c, R.res)} ELSE Peaks(c)) : Is(p)
                              THEN "the statistics are not those of the histogram" ELSE ""
       ELSE "">>)

\* Bins with counts, <<bin, count>>; at most the last event of the first list
\* may count beyond the longest delay.
Slow(R) ==
  LET In(s) == SelectSeq(s, LAMBDA x : x > R.start /\ x <= R.start + R.span)
      as == In(R.a)
      bs == In(R.b)
      low == PairBins(as, bs, R.dt, R.n, R.lim)
      late == IF as = <<>> THEN [k \in {} |-> 0]
              ELSE PairBins(<<as[Len(as)]>>, SelectSeq(bs, LAMBDA x : x - as[Len(as)] >= R.lim), R.dt, R.n, 1073741824)
      At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
      Got(k) == FoldLeft(LAMBDA s, x : IF x[1] = k THEN s + x[2] ELSE s, 0, R.o)
      keys == DOMAIN low \cup DOMAIN late \cup {R.o[i][1] : i \in 1..Len(R.o)}
  IN IF \E k \in keys : Got(k) < At(low, k) THEN "pairs are missing"
     ELSE IF \E k \in keys : Got(k) > At(low, k) + At(late, k) THEN "there are pairs that are not in the window" ELSE ""

Clause(R) ==
  IF R.fail # "" THEN R.fail
  ELSE CASE R.kind = "stats" -> Stats(R)
         [] R.kind = "turn" -> Turn(R)
         [] R.kind = "top" -> Top(R)
         [] R.kind = "corr" -> Corr(R)
         [] R.kind = "slow" -> Slow(R)

Init == run \in 1..Len(Runs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED run
        /\ PrintT(<<"END", Runs[run].id, 1, 1, Clause(Runs[run])>>)
Spec == Init /\ [][Next]_vars
=============================================================================
