------------------------------ MODULE MCDetune ------------------------------
(***************************************************************************)
(* All small files and ratios: detuned events stay in order, the distance  *)
(* to the first event of the file grows by the ratio, and two detectors    *)
(* stay aligned at that event, whichever of them saw it.                   *)
(***************************************************************************)
EXTENDS Detune, FiniteSets, TLC

CONSTANTS L, Defect
VARIABLES ev, num
vars == <<ev, num>>
Init == ev = <<>> /\ num \in -2..2
Next == Len(ev) < L /\ \E d \in {0, 1, 7, 300}, p \in {1, 8} :
          ev' = Append(ev, [t |-> BAdd(IF ev = <<>> THEN BInt(1000) ELSE ev[Len(ev)].t, BInt(d)), p |-> p]) /\ UNCHANGED num
Spec == Init /\ [][Next]_vars

\* The whole unit the writer takes.
Out(e, t0) ==
  LET x == BToInt(e.t) - t0
      y == CASE Defect = "origin" -> BToInt(e.t) + (BToInt(e.t) * num) \div 100
             [] Defect = "sign" -> t0 + x - (x * num) \div 100
             [] OTHER -> t0 + x + (x * num) \div 100
  IN [t |-> BInt(y), p |-> e.p]
File == LET k == IF Defect = "anything" THEN ev ELSE OfPattern(ev, 8)
            t0 == IF Defect = "own" THEN BToInt(k[1].t) ELSE BToInt(ev[1].t)
        IN [i \in 1..Len(k) |-> Out(k[i], t0)]
Some == OfPattern(ev, 8) # <<>>
Right == Some => LET k == OfPattern(ev, 8) IN
  /\ Len(File) = Len(k)
  /\ \A i \in 1..Len(k) : File[i].p = 8 /\ IsDetuned(File[i].t, k[i].t, ev[1].t, num, 10, 10, BZero, BInt(1))
Ordered == Some => \A i, j \in 1..Len(File) : i < j => BLe(File[i].t, File[j].t)
Fixed == Some => \A i \in 1..Len(File) : OfPattern(ev, 8)[i].t = ev[1].t => File[i].t = ev[1].t
=============================================================================
