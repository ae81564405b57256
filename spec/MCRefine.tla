------------------------------- MODULE MCRefine -------------------------------
(***************************************************************************)
(* The refinement of the two offsets.  The target clock shows F0 a + T0    *)
(* when the reference clock shows a.  Every round measures the delay in an *)
(* early and a late window, each within half a bin of the delay in the     *)
(* middle of the window, plus half of how much it drifts during the window,*)
(* corrects the target events and repeats with finer bins.  All quantities *)
(* are exact fractions.                                                    *)
(***************************************************************************)
EXTENDS BigNum, TLC

CONSTANTS Ta, Sep,      \* window and separation (in windows)
          R0, Rf,       \* first and final bin width
          Rho,          \* refinement of the bin width per round
          TMax, K, KD,  \* T0 in -TMax..TMax, F0 = 1 + k/KD with |k| <= K
          Buf,          \* guard rail, in bins
          Lim,          \* |F - 1| < Lim/KD
          Defect
Ts == Sep * Ta

VARIABLES T0, k0,       \* the offsets
          it, R, last,  \* round, bin width, bin width of the round before
          e, l,         \* measured delays (multiples of R; none: <<>>)
          q, tn, fn,    \* what is left:  f = fn/q,  t = tn/q
          Tn, Fn, Fd,   \* accumulated:   F = Fn/Fd, T = Tn/Fd
          st            \* "run", "found", "failed"
vars == <<T0, k0, it, R, last, e, l, q, tn, fn, Tn, Fn, Fd, st>>

Abs(x) == IF x < 0 THEN -x ELSE x
Big3(x, y, z) == BMul(BMul(BInt(x), BInt(y)), BInt(z))

Init == /\ T0 \in -TMax..TMax /\ k0 \in -K..K
        /\ it = 1 /\ R = R0 /\ last = R0 /\ e = <<>> /\ l = <<>>
        /\ q = KD /\ tn = T0 * KD /\ fn = KD + k0
        /\ Tn = 0 /\ Fn = 1 /\ Fd = 1 /\ st = "run"

\* Delays measured (multiples of R) around time s2/2.
Measured(s2) ==
  LET c == 2 * tn + (fn - q) * s2
      w == R * q + Abs(fn - q) * Ta
      \* 2 x q within w of c
      lo == -((w - c) \div (2 * q * R))
      hi == (c + w) \div (2 * q * R)
  IN {x * R : x \in lo..hi}

Early == st = "run" /\ e = <<>> /\ \E x \in Measured(Ta) : e' = <<x>>
         /\ UNCHANGED <<T0, k0, it, R, last, l, q, tn, fn, Tn, Fn, Fd, st>>
Late == st = "run" /\ e # <<>> /\ l = <<>> /\ \E x \in Measured(2 * Ts + Ta) : l' = <<x>>
        /\ UNCHANGED <<T0, k0, it, R, last, e, q, tn, fn, Tn, Fn, Fd, st>>

\* Results that cannot be: the search stops with what it has.
Spurious ==
  LET m == IF Defect = "rails" THEN 1 ELSE last
      lt == IF Defect = "rails" THEN 1 ELSE last
      big(x) == Abs(x) * Fd > Buf * (IF Abs(Tn) > m * Fd THEN Abs(Tn) ELSE m * Fd)
  IN it > 1 /\ (big(e[1]) \/ big(l[1])
                \/ (Abs(l[1] - e[1]) * Fd > Buf * (IF Abs(Fn - Fd) * Ts > lt * Fd THEN Abs(Fn - Fd) * Ts ELSE lt * Fd)))

Accumulate ==
  LET g == IF Defect = "sign" THEN e[1] - l[1] ELSE l[1] - e[1]
      w == Ts + g
  IN /\ Tn' = (IF Defect = "norec" THEN Tn + Fd * e[1] ELSE Tn + Fn * e[1]) * Ts
     /\ Fn' = IF Defect = "add" THEN Fn * Ts + Fd * g ELSE Fn * w
     /\ Fd' = Fd * Ts
     /\ q' = q * w
     /\ tn' = (IF Defect = "noshift" THEN tn ELSE tn - e[1] * q) * Ts
     /\ fn' = fn * Ts

Step ==
  /\ st = "run" /\ l # <<>>
  /\ IF Spurious
     THEN st' = "found" /\ UNCHANGED <<R, last, it, q, tn, fn, Tn, Fn, Fd>>
     ELSE /\ Accumulate
          /\ IF Abs(Fn' - Fd') * KD >= Lim * Fd'
             THEN st' = "failed" /\ UNCHANGED <<R, last, it>>
             ELSE IF R = Rf \/ (Defect = "stop" /\ R <= 4 * Rf)
             THEN st' = "found" /\ UNCHANGED <<R, last, it>>
             ELSE /\ st' = "run" /\ last' = R /\ it' = it + 1
                  /\ R' = IF R \div Rho > Rf THEN R \div Rho ELSE Rf
  /\ e' = <<>> /\ l' = <<>> /\ UNCHANGED <<T0, k0>>
Next == Early \/ Late \/ Step
Spec == Init /\ [][Next]_vars

\* T0 = F t + T and F0 = F f, exactly, in every round.
Exact == /\ BAdd(Big3(Fn, tn, 1), Big3(Tn, q, 1)) = Big3(T0, Fd, q)
         /\ Big3(Fn, fn, KD) = Big3(KD + k0, Fd, q)
\* What is found is the offset to 7/2 of the final bin.
Close == st = "found" =>
  /\ BWithin(Big3(2, Fn, tn), Big3(7 * Rf, Fd, q))
  /\ BWithin(BMul(Big3(2, Fn, fn - q), BInt(Ts)), Big3(7 * Rf, Fd, q))
InBounds == st = "found" => Abs(Fn - Fd) * KD < Lim * Fd
\* Offsets well inside the bound are found.
Finds == st = "failed" => Lim * Ts <= 2 * (Abs(k0) * (Ts + Ta) + R0 * KD)
Ends == it <= 6
=============================================================================
