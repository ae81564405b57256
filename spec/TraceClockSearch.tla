-------------------------- MODULE TraceClockSearch --------------------------
(***************************************************************************)
(* Checks recorded calls of the array functions and recorded runs of the   *)
(* search against ClockArrays and ClockSearch.                             *)
(***************************************************************************)
EXTENDS ClockSearch, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACE).runs
VARIABLES run, done
vars == <<run, done>>

FirstOf(l) == LET h == SelectSeq(l, LAMBDA x : x # "") IN IF h = <<>> THEN "" ELSE h[1]

Norm0(R) ==
  LET w == Normalised(R.T, R.skip, R.rel) IN FirstOf(<<
    IF R.same # 1 THEN "normalising modified its arguments" ELSE "",
    IF Len(R.o) # Len(w) THEN "a normalised list is missing" ELSE "",
    IF \E j \in 1..Len(w) : Len(R.o[j]) # Len(w[j]) THEN "normalising kept wrong events" ELSE "",
    IF R.o # w THEN "a normalised time is wrong" ELSE "">>)

Slice0(R) ==
  LET w == Window(R.t, R.hasstart, R.start, R.hasdur, R.dur) IN FirstOf(<<
    IF R.same # 1 THEN "slicing modified its argument" ELSE "",
    IF Len(R.o) # Len(w) THEN "slicing kept wrong events" ELSE "",
    IF R.o # w THEN "a sliced time is wrong" ELSE "">>)

Bins(R) ==
  IF R.err = 1 THEN IF R.t = <<>> THEN "" ELSE "events were refused"
  ELSE IF R.t = <<>> THEN "no events were not reported"
  ELSE IF R.h # Histogram(R.t, R.res, R.n) THEN "events are in wrong bins" ELSE ""

\* Reported delays d (1/256 ns) stand for some peak of h.
IsDelay(d, h, res) ==
  \E p \in Peaks(h) : \E c \in Candidates(p, Len(h)) :
     d[1] = BMulS(BInt(c[1]), res) /\ d[2] = BMulS(BInt(c[2]), res)

Xcorr(R) ==
  LET ha == Histogram(R.a, R.res, R.n)
      hb == Histogram(R.b, R.res, R.n)
      c == Correlation(ha, hb)
  IN FirstOf(<<
    IF R.len # R.n \/ R.exact # 1 THEN "the correlation is not one number of pairs per bin" ELSE "",
    IF R.y # c THEN "the correlation is wrong" ELSE "",
    IF ~IsDelay(R.d, c, R.res) THEN "the delay is not that of the peak" ELSE "">>)

Delay(R) == FirstOf(<<
    IF ~IsDelay(R.d, R.h, R.res) THEN "the delay is not that of the peak" ELSE "",
    IF \E p \in 0..(Len(R.h) - 1) :
         ~\E c \in Candidates(p, Len(R.h)) : R.at[p + 1] = <<BMulS(BInt(c[1]), R.res), BMulS(BInt(c[2]), R.res)>>
      THEN "the delay of a position is wrong" ELSE "",
    IF ~IsDelay(R.top, R.h, R.res) THEN "the delay of the highest position is wrong" ELSE "">>)

Stats(R) == FirstOf(<<
    IF R.max # Peak(R.h) THEN "the peak is not the highest bin" ELSE "",
    IF ~\E p \in Peaks(R.h) : IsSignificance(R.h, p, R.s) THEN "the significance is wrong" ELSE "">>)

Precomp(R) ==
  IF R.step = BZero
  THEN IF R.v = <<BZero>> THEN "" ELSE "without a step there is not just zero"
  ELSE
  LET span == IF R.ordered = 1 THEN BSub(R.stop, R.start) ELSE R.stop
      m == Multiples(R.n, R.ordered)
      w(i) == BAdd(R.start, BMulS(R.step, m[i]))
  IN IF R.n >= 0 /\ ~(BLe(BMulS(R.step, R.n), span) /\ BLt(span, BMulS(R.step, R.n + 1)))
     THEN "machinery: number of steps"
     ELSE IF Len(R.v) < Len(m) THEN "precompensations are missing"
     ELSE IF Len(R.v) > Len(m) THEN "there are too many precompensations"
     ELSE IF \E i \in 1..Len(m) : ~BWithin(BSub(R.v[i], w(i)), BInt(R.tol)) THEN "a precompensation is wrong or out of order"
     ELSE ""

Scan(R) ==
  LET w == FirstSuccess(R.outcomes) IN
  IF R.got = w THEN ""
  ELSE IF w = <<>> THEN "a scan without any success gave a result"
  ELSE IF R.got = <<>> THEN "a scan with a success failed"
  ELSE "a scan did not give the first success"

\* One line with what was found.
Line(x) == FirstOf(<<
    IF x.code # 0 THEN "offsets that are there were not found" ELSE "",
    IF x.fmt # 1 THEN "the output is not one line with the result" ELSE "">>)

Found(R) ==
  LET s == CommonStart(R.fa, R.fb, R.skip)
      x == OffsetAt(R.D, R.F, R.c0, s)
      ok == Line(R)
  IN IF ok # "" THEN ok
     ELSE IF R.swapped = 1
     THEN FirstOf(<<IF ~FreqWithin(R.df, SwappedFreq(R.F), R.Ts, R.res) THEN "the frequency offset is wrong with exchanged roles" ELSE "",
                    IF ~SwappedTime(R.dt, R.F, x, R.res) THEN "the time offset is wrong with exchanged roles" ELSE "">>)
     ELSE FirstOf(<<IF ~FreqWithin(R.df, BShl(R.F, 10), R.Ts, R.res) THEN "the frequency offset is wrong" ELSE "",
                    IF ~TimeWithin(R.dt, x, R.res) THEN "the time offset is wrong" ELSE "">>)

\* Nothing to be found.
None(R) == FirstOf(<<
    IF R.printed = 1 THEN "a result was printed where there is none" ELSE "",
    IF R.code = 0 THEN "a failed search ended without an error" ELSE "">>)
\* Whatever the data: a result is in bounds, or there is an error and no result.
Either(R) ==
  IF R.code # 0 THEN IF R.printed = 1 THEN "an error came with a result" ELSE ""
  ELSE IF R.fmt # 1 THEN "the output is not one line with the result"
  ELSE IF ~\E i \in 1..Len(R.ps) : InBounds(R.df, R.ps[i]) THEN "the frequency offset found is out of bounds" ELSE ""

\* The sixteen outputs for one input.  V[v + 1] has code, fmt (well formed),
\* df (2^-50) or f34 (integer), dt.  With exact = 1, xt and xf are the time
\* (2^-12 ns) and the frequency (2^-50) before they were printed.
Flags(R) ==
  LET V(v) == R.V[v + 1]
      Inv(v) == v % 2 = 1
      IsInt(v) == (v \div 2) % 2 = 1
      No(v) == (v \div 4) % 2 = 1
      Fine(v) == (v \div 8) % 2 = 1
      base(v) == V(v % 2)                     \* frequency as a number, time in ns
      d0 == V(0).df
      d1 == V(1).df
      t0 == V(0).dt
      t1 == V(1).dt
      prod == BAdd(BAdd(d0, d1), BAsr(BMul(d0, d1), 50))
      inv == BAdd(BAdd(BShl(t1, 50), BMul(t1, d0)), BShl(t0, 50))
      \* t (1 + f) + x, t a printed time and x an exact one in 2^-12
      Back(t, x) == BAdd(BAdd(BShl(t, 12), BAsr(BMul(BShl(t, 12), R.xf), 50)), x)
      One(v) == FirstOf(<<
        IF V(v).code # 0 THEN "an output option made the search fail" ELSE "",
        IF V(v).fmt # 1 THEN "the output is not one line in the requested form" ELSE "",
        IF IsInt(v) THEN IF ~BWithin(BSub(BShl(V(v).f34, 16), base(v).df), BInt(32770)) THEN "the integer frequency is wrong" ELSE ""
        ELSE IF V(v).df # base(v).df THEN "the frequency depends on other options" ELSE "",
        IF No(v) THEN ""
        ELSE IF Fine(v) THEN IF ~BWithin(BSub(V(v).dt, BShl(base(v).dt, 3)), BInt(4)) THEN "the time in 1/8 ns is wrong" ELSE ""
        ELSE IF V(v).dt # base(v).dt THEN "the time depends on other options" ELSE "">>)
  IN FirstOf([v \in 1..16 |-> One(v - 1)] \o <<
       IF \E i \in 1..Len(R.text) : R.text[i][1] # R.text[i][2] THEN "logging or a configuration file changes the output" ELSE "",
       IF R.exact = 1 /\ ~BWithin(BSub(d0, R.xf), BInt(4)) THEN "the frequency is not the one that was found" ELSE "",
       IF R.exact = 1 /\ ~BWithin(BSub(BShl(t0, 12), R.xt), BInt(2051)) THEN "the time is not rounded to the nearest ns" ELSE "",
       IF R.exact = 1 /\ ~BWithin(BSub(BShl(V(8).dt, 12), BShl(R.xt, 3)), BInt(2076)) THEN "the time is not rounded to the nearest 1/8 ns" ELSE "",
       IF R.exact = 1 /\ ~BWithin(Back(V(1).dt, R.xt), BInt(2060)) THEN "the inverted time is not rounded to the nearest ns" ELSE "",
       IF R.exact = 1 /\ ~BWithin(Back(V(9).dt, BShl(R.xt, 3)), BInt(2096)) THEN "the inverted time is not rounded to the nearest 1/8 ns" ELSE "",
       IF ~BWithin(prod, BInt(8)) THEN "the inverted frequency is wrong" ELSE "",
       IF ~BWithin(inv, BAdd(BPow2(50), BPow2(48))) THEN "the inverted time is wrong" ELSE "">>)

\* After the correction no offset is left beyond the resolution of the two
\* searches and the unit of the correction.
Loop(R) ==
  LET e == BAbs(R.df)
      ok == Line(R)
  IN IF ok # "" THEN ok
     ELSE IF BLtU(e, BPow2(50)) /\ BLe(BMul(e, R.Ts), BAdd(BMulS(BPow2(60), 7 * R.res), BShl(R.Ts, 26)))
     THEN "" ELSE "an offset is left after the correction"

\* Two ways to give the same events.
Same(R) ==
  FirstOf(<<Line(R.x), Line(R.y),
    IF ~BWithin(BSub(R.x.dt, R.y.dt), BZero) THEN "the time offset depends on the kind of files" ELSE "",
    IF ~BWithin(BSub(R.x.df, R.y.df), BPow2(12)) THEN "the frequency offset depends on the kind of files" ELSE "">>)

Clause(R) ==
  IF R.fail # "" THEN R.fail
  ELSE CASE R.kind = "norm" -> Norm0(R)
         [] R.kind = "slice" -> Slice0(R)
         [] R.kind = "bins" -> Bins(R)
         [] R.kind = "xcorr" -> Xcorr(R)
         [] R.kind = "delay" -> Delay(R)
         [] R.kind = "stats" -> Stats(R)
         [] R.kind = "precomp" -> Precomp(R)
         [] R.kind = "scan" -> Scan(R)
         [] R.kind = "found" -> Found(R)
         [] R.kind = "none" -> None(R)
         [] R.kind = "either" -> Either(R)
         [] R.kind = "flags" -> Flags(R)
         [] R.kind = "loop" -> Loop(R)
         [] R.kind = "same" -> Same(R)

Init == run \in 1..Len(Runs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED run
        /\ PrintT(<<"END", Runs[run].id, 1, 1, Clause(Runs[run])>>)
Spec == Init /\ [][Next]_vars
=============================================================================
