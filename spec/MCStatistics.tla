---------------------------- MODULE MCStatistics ----------------------------
(***************************************************************************)
(* All small histograms with every centre and window.  Prints them as      *)
(* cases for the code.                                                     *)
(***************************************************************************)
EXTENDS Statistics, TLC, Json

CONSTANTS N, Top, Show, Defect
ASSUME N % 2 = 0
VARIABLES h, c, w
vars == <<h, c, w>>

Init == h = <<>> /\ c = 0 /\ w = 0
Fill == Len(h) < N /\ \E x \in 0..Top : h' = Append(h, x) /\ UNCHANGED <<c, w>>
Pick == Len(h) = N /\ w = 0 /\ c' \in (-N + 1)..(N - 1) /\ w' \in 1..(N + 1) /\ UNCHANGED h
        /\ (Show => PrintT(<<"CASE", ToJson([h |-> h, c |-> c', w |-> w' - 1])>>))
Next == Fill \/ Pick
Spec == Init /\ [][Next]_vars

Full == w # 0
P == IF Defect = "negative" THEN Abs(c) ELSE BinOfDelay(N, c, 1)
K == IF Defect = "floor" THEN (w - 1) \div 2 ELSE HalfWindow(w - 1, 1)
Sig == SignalBins(N, P, K)
Bg == IF Defect = "overlap" THEN Span(LeftOf(P, K) \div 2, LeftOf(P, K), N) \o Span(RightOf(N, P, K) + 1, (N + RightOf(N, P, K)) \div 2, N)
      ELSE IF Defect = "whole" THEN Span(0, LeftOf(P, K) - 1, N) \o Span(RightOf(N, P, K) + 1, N - 1, N)
      ELSE BackBins(N, P, K)
Set(s) == {s[i] : i \in 1..Len(s)}

\* The centre is the bin the delay falls in, modulo the length.
Centre == Full => P \in 0..(N - 1) /\ (P - c) % N = 0
\* The window holds what is less than half a width away.
Covers == Full => P \in Set(Sig) /\ \A i \in 0..(N - 1) : 2 * Abs(i - P) < w + 1 => i \in Set(Sig)
\* Signal and background share nothing; every bin is counted once.
Apart == Full => Set(Sig) \cap Set(Bg) = {} /\ Cardinality(Set(Bg)) = Len(Bg) /\ Cardinality(Set(Sig)) = Len(Sig)
                 /\ Set(Bg) \subseteq 0..(N - 1)
\* The background leaves out the tails, but not more.
Tails == Full =>
  /\ \A i \in Set(Bg), j \in 0..(N - 1) : ((i <= j /\ j < LeftOf(P, K)) \/ (RightOf(N, P, K) < j /\ j <= i)) => j \in Set(Bg)
  /\ Cardinality({i \in Set(Bg) : i < P}) * 2 - LeftOf(P, K) \in {0, 1}
  /\ (P > 2 * K + 1 /\ Len(Sig) < N) => ~(0 \in Set(Bg))
\* A common factor or background changes no height.
Scaled == Full /\ Bg # <<>> =>
  LET s == Counts(h, Sig)
      b == Counts(h, Bg)
      s2 == [i \in DOMAIN s |-> 3 * s[i] + (IF Defect = "offset" THEN 1 ELSE 0)]
      b2 == [i \in DOMAIN b |-> 3 * b[i]]
      s3 == [i \in DOMAIN s |-> s[i] + 5]
      b3 == [i \in DOMAIN b |-> b[i] + 5]
      Sq(x) == BMul(BInt(x), BInt(x))
  IN /\ BMul(Sq(HeightX(s2, b2)), Spread(b)) = BMul(Sq(HeightX(s, b)), Spread(b2))
     /\ BMul(Sq(HeightX(s3, b3)), Spread(b)) = BMul(Sq(HeightX(s, b)), Spread(b3))
     /\ ~BIsNeg(Spread(b))
     /\ TotalX(s3, b3) = TotalX(s, b)
     /\ (c = 0 => TRUE)
\* Turning keeps every count with its delay.
Turns == Len(h) = N => LET t == Turned(h) IN
  /\ \A i \in 1..N : t[i] = h[(TurnedBin(N, i) % N) + 1]
  /\ Turned(t) = h
Ranks == Len(h) = N => LET t == TopK(h, N) IN
  /\ \A i, j \in 1..N : i < j => t[i] >= t[j]
  /\ \A x \in 0..Top : Cardinality({i \in 1..N : t[i] = x}) = Cardinality({i \in 1..N : h[i] = x})
=============================================================================
