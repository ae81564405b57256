------------------------------- MODULE MCScan -------------------------------
(***************************************************************************)
(* The scan over precompensations, one at a time, on any target whose      *)
(* frequency offset is in reach of some of them.                           *)
(***************************************************************************)
EXTENDS ClockSearch, TLC

CONSTANTS Max0,     \* start, stop, step and offset up to this
          Reach,    \* search succeeds within this of the offset
          Defect
VARIABLES p, i, found, tried, st
vars == <<p, i, found, tried, st>>

Init == /\ p \in [start : -Max0..Max0, stop : 0..Max0, step : 0..Max0, off : -Max0..Max0, ordered : {0, 1}, full : {0, 1}]
        /\ i = 1 /\ found = <<>> /\ tried = <<>> /\ st = "run"

List == IF p.step = 0 THEN <<0>>
        ELSE LET n == StepsTo(p.start, p.stop, p.step, p.ordered)
                 m == IF Defect = "short" THEN Multiples(n - 1, p.ordered)
                      ELSE IF Defect = "twice" THEN [j \in 1..Len(Multiples(n, p.ordered)) |-> Multiples(n, p.ordered)[j] \div 2]
                      ELSE Multiples(n, p.ordered)
             IN [j \in 1..Len(m) |-> p.start + m[j] * p.step]
Abs(x) == IF x < 0 THEN -x ELSE x
\* A search started at precompensation v ends at the offset, if it can.
Outcome(v) == IF Abs(p.off - v) <= Reach THEN <<p.off, v>> ELSE <<>>

Try == st = "run" /\ i <= Len(List)
       /\ LET r == Outcome(List[i]) IN
            /\ tried' = Append(tried, List[i])
            /\ found' = IF r # <<>> /\ (found = <<>> \/ Defect = "last") THEN r ELSE found
            /\ i' = i + 1
            /\ st' = IF (r # <<>> /\ p.full = 0) \/ (Defect = "giveup" /\ r = <<>>) THEN "done" ELSE "run"
       /\ UNCHANGED p
Done == st = "run" /\ i > Len(List) /\ st' = "done" /\ UNCHANGED <<p, i, found, tried>>
Next == Try \/ Done
Spec == Init /\ [][Next]_vars

Once == \A j, k \in 1..Len(List) : List[j] = List[k] => j = k
Covers == p.step > 0 =>
  \A v \in -2 * Max0..2 * Max0 :
     (v \in {List[j] : j \in 1..Len(List)}) <=>
        /\ (v - p.start) % p.step = 0
        /\ IF p.ordered = 1 THEN p.start <= v /\ v <= p.stop ELSE Abs(v - p.start) <= p.stop
Nearest == p.ordered = 0 => \A j, k \in 1..Len(List) : j < k => Abs(List[j] - p.start) <= Abs(List[k] - p.start)
First == st = "done" => found = FirstSuccess([j \in 1..Len(List) |-> Outcome(List[j])])
InOrder == tried = [j \in 1..Len(tried) |-> List[j]]
AllTried == st = "done" /\ (p.full = 1 \/ found = <<>>) => Len(tried) = Len(List)
=============================================================================
