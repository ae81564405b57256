----------------------------- MODULE SearchLog -----------------------------
(***************************************************************************)
(* fpfind's log as an account of its search.                               *)
(*                                                                         *)
(* A log is a sequence of lines; Account reads it and says where, if       *)
(* anywhere, it cannot be the account of one search over the list of       *)
(* precompensations: each one tried in order, told once with its outcome;  *)
(* in detail, iterations from 1 on, peaks that are accepted from the       *)
(* threshold on and searched at twice the resolution otherwise, delays     *)
(* that add up to the totals told, an outcome that is that of the last     *)
(* iteration.                                                              *)
(*                                                                         *)
(* Lines are records [k |-> kind, ...] with times in ns, rates in 10^-10,  *)
(* resolutions in 1/10 ns, significances in 1/1000, each rounded.          *)
(***************************************************************************)
EXTENDS BigNum, SequencesExt

Tera  == BMulS(BInt(1000000000), 10)          \* 10^10, one as a rate
Plus1(f) == BAdd(Tera, BInt(f))               \* 1 + f as a rate
\* a * b = c * 10^10 within tol
RateTimes(f, t, c, tol) == BWithin(BSub(BMul(Plus1(f), BInt(t)), BMul(Tera, BInt(c))), BMulS(Tera, tol))
\* (1 + f)(1 + g) = 1 + h within tol
RateProduct(f, g, h, tol) == BWithin(BSub(BMul(Plus1(f), Plus1(g)), BMul(Tera, Plus1(h))), BMulS(Tera, tol))
\* f * T = t
RateOver(f, T, t) == BWithin(BSub(BMul(BInt(f), T), BMul(Tera, BInt(t))), BAdd(BMulS(Tera, 1), T))
\* printed precompensation (10^-9 or 10^-10) against the exact one (2^-60)
IsRate(v, unit, exact) ==
  BWithin(BSub(BShl(BInt(v), 60), BMul(exact, BMulS(BInt(1000000000), unit))), BShl(BInt(1), 60))
Close(a, b, tol) == a - b <= tol /\ b - a <= tol
AbsI(x) == IF x < 0 THEN -x ELSE x

\* pre: precompensations (2^-60); opt: R, r (ns), thr (1/1000), Ts (ns, big), Tm, Ta (us), par, ev, scan, full, dbg
Start == [ph |-> "top", i |-> 0, p |-> 0, n |-> 0, r |-> 0, S |-> 0, d1 |-> 0, d2 |-> 0, dt |-> 0, f |-> 0, w |-> 0, found |-> <<>>, done |-> FALSE, bad |-> ""]
Bad(s, why) == [s EXCEPT !.bad = why]
To(s, p) == [s EXCEPT !.ph = p]

\* A failure told with its numbers agrees with the iteration it ends, as far
\* as that was told: the later ones do not tell their peak.
AsTold(s, l) ==
  LET new == s.n > 1 /\ s.ph = "fine"
      Has(x) == x \in DOMAIN l
  IN /\ (Has("r") => Close(10 * l.r, IF s.ph = "again" THEN 2 * s.r ELSE s.r, 6))
     /\ (Has("S") /\ s.n = 1 => Close(l.S, s.S, 1))
     /\ (Has("dt1") /\ ~new => l.dt1 = s.d1)
     /\ (Has("dt2") /\ ~new => l.dt2 = s.d2)
     /\ (Has("dt") /\ ~new => l.dt = s.dt)
     /\ (Has("df") /\ ~new => Close(l.df, s.f, 1))

Pre(s, l, pre) ==
  IF s.ph # "top" THEN Bad(s, "a precompensation begins within another")
  ELSE IF s.done THEN Bad(s, "a precompensation was tried after the search ended")
  ELSE IF s.i >= Len(pre) THEN Bad(s, "more precompensations were tried than there are")
  ELSE IF ~IsRate(l.p, 10, pre[s.i + 1]) THEN Bad(s, "the precompensation told is not the one in the list")
  ELSE [s EXCEPT !.ph = "start", !.i = @ + 1, !.p = l.p, !.n = 0, !.dt = 0, !.f = 0, !.r = 0, !.d1 = 0, !.d2 = 0, !.S = 0]

Iter(s, l, opt) ==
  IF s.ph \notin {"start", "next"} THEN Bad(s, "an iteration begins out of turn")
  ELSE IF l.n # s.n + 1 THEN Bad(s, "iterations are not counted")
  ELSE IF l.n = 1 /\ l.r # 10 * opt.R THEN Bad(s, "the first iteration is not at the initial resolution")
  ELSE IF l.n > 1 /\ (l.r > s.r \/ l.r < 10 * opt.r) THEN Bad(s, "the resolution is not refined towards the final one")
  ELSE [s EXCEPT !.ph = IF l.n = 1 THEN "coarse" ELSE "fine", !.n = l.n, !.r = l.r]

\* What the search was given: lengths in us, told in 1/100 or 1/10 s.
Told(v, unit, us) == Close(v * unit, us, unit \div 2 + 2)
Given(s, l, pre, opt) ==
  CASE l.k = "req" -> IF Told(l.need, 100000, opt.Tm + opt.Ta) /\ Told(l.cc, 100000, opt.Ta) THEN s ELSE Bad(s, "the duration required is told wrongly")
    [] l.k = "read" -> IF /\ l.a = opt.ev.n[1] /\ l.b = opt.ev.n[2] /\ Told(l.z, 10000, opt.ev.z)
                          /\ \A j \in 1..4 : Told(l.t[j], 10000, opt.ev.t[j])
                       THEN s ELSE Bad(s, "the events read are told wrongly")
    [] l.k = "prep" -> IF l.n = Len(pre) /\ opt.scan = 1 THEN s ELSE Bad(s, "the number of precompensations is told wrongly")
    [] l.k = "par" -> IF s.ph = "start" /\ l.p = opt.par THEN s ELSE Bad(s, "the parameters are told wrongly")
    [] l.k = "earlier" -> IF (s.ph = "coarse" \/ (s.ph = "fine" /\ s.n > 1)) /\ l.lo = 0 THEN [s EXCEPT !.w = l.hi]
                          ELSE Bad(s, "the first correlation is told wrongly")
    [] l.k = "later" -> IF s.ph = "fine" /\ Told(l.lo, 10000, opt.Tm) /\ Close(l.hi - l.lo, s.w, 1) THEN s
                        ELSE Bad(s, "the second correlation is told wrongly")

\* Peaks in the first iteration only.
Peak(s, l) ==
  IF s.ph \notin {"coarse", "again"} THEN Bad(s, "a peak is told out of turn")
  ELSE IF 10 * l.r # (IF s.ph = "again" THEN 2 * s.r ELSE s.r) THEN Bad(s, "the resolution of a peak is not twice the one before")
  ELSE IF s.ph = "again" /\ l.r > 10000 THEN Bad(s, "a peak is searched at a resolution beyond 10 us")
  ELSE IF l.dt % l.r # 0 THEN Bad(s, "the delay of a peak is no multiple of the resolution")
  ELSE [s EXCEPT !.ph = "peak", !.r = 10 * l.r, !.S = l.S, !.d1 = l.dt]
Judge(s, opt, accepted) ==
  IF s.ph # "peak" THEN Bad(s, "a peak is judged that was not told")
  ELSE IF accepted /\ s.S + 1 < opt.thr THEN Bad(s, "a peak below the threshold was accepted")
  ELSE IF ~accepted /\ s.S - 1 > opt.thr THEN Bad(s, "a peak above the threshold was rejected")
  ELSE To(s, IF accepted THEN "fine" ELSE "again")

Calc(s, l, opt) ==
  IF s.ph # "fine" THEN Bad(s, "delays are told out of turn")
  ELSE IF s.n = 1 /\ l.d1 # s.d1 THEN Bad(s, "the early delay is not that of the peak")
  ELSE IF ~RateOver(l.df, opt.Ts, l.d2 - l.d1) THEN Bad(s, "the rate is not that of the two delays")
  ELSE IF ~RateTimes(s.f, l.d1, l.acc - s.dt, 2) THEN Bad(s, "the delays do not add up")
  ELSE IF ~RateProduct(s.f, l.df, l.f, 3) THEN Bad(s, "the rates do not add up")
  ELSE [s EXCEPT !.ph = IF AbsI(l.f) > 1220703 THEN "over" ELSE "next", !.d1 = l.d1, !.d2 = l.d2, !.dt = l.acc, !.f = l.f]
Spurious(s) == IF s.ph # "fine" \/ s.n < 2 THEN Bad(s, "a search was interrupted out of turn") ELSE To(s, "spur")
Returned(s, opt) ==
  IF s.ph = "spur" THEN To(s, "ret")
  ELSE IF s.ph # "next" THEN Bad(s, "results are returned out of turn")
  ELSE IF s.r # 10 * opt.r THEN Bad(s, "results are returned before the final resolution")
  ELSE To(s, "ret")
Another(s, l) == IF s.ph # "ret" \/ ~Close(l.f, s.f, 1) THEN Bad(s, "the compensation told is not the one found") ELSE s

\* The outcome of precompensation s.i.  Without detail it is also its begin.
Outcome(s0, l, pre, opt) ==
  LET s == IF opt.dbg = 1 THEN s0 ELSE [s0 EXCEPT !.i = @ + 1]
      ph == IF opt.dbg = 1 THEN s.ph ELSE "any"
      p == l.ppm
  IN IF ~(s.i \in 1..Len(pre)) THEN Bad(s, "an outcome is told of no precompensation")
     ELSE IF s.done THEN Bad(s, "a precompensation was tried after the search ended")
     ELSE IF ~IsRate(p, 1, pre[s.i]) THEN Bad(s, "an outcome is told of another precompensation")
     ELSE IF l.k = "fail"
     THEN IF ph # "any" /\ "r" \in DOMAIN l /\ (ph \notin {"peak", "again", "fine", "over", "next"} \/ ~AsTold(s, l))
          THEN Bad(s, "a failure is not told as it was")
          ELSE To(s, "top")
     ELSE IF ph \notin {"any", "ret"} THEN Bad(s, "an offset was found without a search")
     ELSE IF ph = "ret" /\ (l.r # opt.r \/ ~RateProduct(s.p, s.f, l.df, 3) \/ ~RateTimes(s.p, s.dt, l.dt, 2))
     THEN Bad(s, "the offset told is not the one found")
     ELSE [s EXCEPT !.ph = "top", !.found = IF @ = <<>> THEN <<l>> ELSE @, !.done = opt.full = 0]

Step(s, l, pre, opt) ==
  IF s.bad # "" THEN s
  ELSE CASE l.k = "pre" -> Pre(s, l, pre)
         [] l.k \in {"req", "read", "prep", "par", "earlier", "later"} -> Given(s, l, pre, opt)
         [] l.k = "iter" -> Iter(s, l, opt)
         [] l.k = "peak" -> Peak(s, l)
         [] l.k = "acc" -> Judge(s, opt, TRUE)
         [] l.k = "rej" -> Judge(s, opt, FALSE)
         [] l.k = "calc" -> Calc(s, l, opt)
         [] l.k = "spur" -> IF opt.dbg = 0 THEN s ELSE Spurious(s)
         [] l.k = "ret" -> Returned(s, opt)
         [] l.k = "another" -> Another(s, l)
         [] l.k \in {"found", "fail"} -> Outcome(s, l, pre, opt)
         [] OTHER -> Bad(s, "a line is not understood")

Account(log, pre, opt) == FoldLeft(LAMBDA s, l : Step(s, l, pre, opt), Start, log)
=============================================================================
