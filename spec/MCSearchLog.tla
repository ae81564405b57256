---------------------------- MODULE MCSearchLog ----------------------------
(***************************************************************************)
(* A scan whose searches fail, are interrupted or end at the final         *)
(* resolution, writing its log as it goes: reading the log back must give  *)
(* what happened, whatever the outcomes.                                   *)
(***************************************************************************)
EXTENDS SearchLog, TLC

CONSTANTS M, Defect
VARIABLES pre, full, i, ph, n, r, S, dt, f, read, first, st
vars == <<pre, full, i, ph, n, r, S, dt, f, read, first, st>>

\* precompensations are multiples of 10^-9 * 2^60, rounded
P(k) == BMulS(<<1953, 1797, 274, 0, 0, 0, 0, 0>>, k)
Opt == [R |-> 4, r |-> 2, thr |-> 6000, Ts |-> BInt(1000), full |-> full, dbg |-> 1]

Init == /\ pre \in {[j \in 1..m |-> j - 1] : m \in 1..M} /\ full \in {0, 1}
        /\ i = 0 /\ ph = "top" /\ n = 0 /\ r = 0 /\ S = 0 /\ dt = 0 /\ f = 0 /\ read = Start /\ first = -1 /\ st = "run"

\* The lines x are written, and read.
Say(x) == read' = FoldLeft(LAMBDA a, l : Step(a, l, [j \in 1..Len(pre) |-> P(pre[j])], Opt), read, x)
FailLine == [k |-> "fail", ppm |-> pre[i], r |-> r \div 10, S |-> S, dt1 |-> IF Defect = "stale" THEN dt + 4 ELSE dt]

Begin == /\ ph = "top" /\ st = "run" /\ i < Len(pre)
         /\ i' = i + 1 /\ ph' = "peak" /\ n' = 1 /\ r' = 40 /\ dt' = 0 /\ f' = 0 /\ S' = 0
         /\ Say(<<[k |-> "pre", p |-> 10 * pre[i + 1]], [k |-> "iter", n |-> 1, r |-> 40]>>)
         /\ UNCHANGED <<pre, full, first, st>>
Measure == /\ ph = "peak"
           /\ \E s \in {5000, 7000}, d \in {0, 8} :
                /\ S' = s /\ dt' = d
                /\ LET l == <<[k |-> "peak", S |-> s, dt |-> d, r |-> r \div 10]>>
                   IN IF s > 6000 THEN ph' = "delays" /\ r' = r /\ Say(l \o <<[k |-> "acc"]>>)
                      ELSE ph' = (IF r = 80 THEN "failed" ELSE "peak") /\ r' = (2 * r) /\ Say(l \o <<[k |-> IF Defect = "early" THEN "acc" ELSE "rej"]>>)
           /\ UNCHANGED <<pre, full, i, n, f, first, st>>
Delays == /\ ph = "delays"
          /\ \E d \in {0, 4} :
               LET df == d * 10000000 IN
               /\ f' = df /\ Say(<<[k |-> "calc", d1 |-> dt, d2 |-> dt + d, acc |-> dt, df |-> df, f |-> df]>>)
               /\ ph' = IF d # 0 THEN "failed" ELSE "ended"
          /\ UNCHANGED <<pre, full, i, n, r, S, dt, first, st>>
Refine == /\ ph = "ended" /\ r > 20
          /\ r' = 20 /\ n' = n + 1 /\ ph' = "last"
          /\ Say(<<[k |-> "iter", n |-> n + 1, r |-> 20]>>)
          /\ UNCHANGED <<pre, full, i, S, dt, f, first, st>>
Last2 == /\ ph = "last"
         /\ \/ ph' = "ok" /\ Say(<<[k |-> "calc", d1 |-> 0, d2 |-> 0, acc |-> dt, df |-> 0, f |-> f], [k |-> "ret"]>>)
            \/ ph' = "ok" /\ Say(<<[k |-> "spur"], [k |-> "ret"]>>)
         /\ UNCHANGED <<pre, full, i, n, r, S, dt, f, first, st>>
Fail == /\ ph = "failed"
        /\ ph' = "top"
        /\ Say(IF Defect = "silent" THEN <<>> ELSE IF Defect = "twice" THEN <<FailLine, FailLine>> ELSE <<FailLine>>)
        /\ UNCHANGED <<pre, full, i, n, r, S, dt, f, first, st>>
Found == /\ ph = "ok"
         /\ first' = (IF first = -1 THEN pre[i] ELSE first) /\ ph' = "top"
         /\ Say(<<[k |-> "another", f |-> f], [k |-> "found", ppm |-> pre[i], r |-> 2, dt |-> dt, df |-> 10 * pre[i]]>>)
         /\ st' = IF full = 0 /\ Defect # "after" THEN "done" ELSE "run"
         /\ UNCHANGED <<pre, full, i, n, r, S, dt, f>>
Next == Begin \/ Measure \/ Delays \/ Refine \/ Last2 \/ Fail \/ Found
Spec == Init /\ [][Next]_vars

Understood == read.bad = ""
\* The account ends where the search is, with its first result.
True ==
  ph = "top" =>
    /\ read.ph = "top" /\ read.i = i
    /\ IF first = -1 THEN read.found = <<>> ELSE read.found # <<>> /\ read.found[1].ppm = first
=============================================================================
