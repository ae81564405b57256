---------------------------- MODULE MCClockArrays ----------------------------
(***************************************************************************)
(* The correlation of every pair of small event sets, and windows of every *)
(* small event list: what the search relies on holds of the definitions.   *)
(***************************************************************************)
EXTENDS ClockArrays, TLC

CONSTANTS N,        \* bins
          L,        \* event times 0 .. L - 1 (in bins)
          Defect    \* "" or a mistake in the definitions
ASSUME N % 2 = 0

VARIABLES a, b, d
vars == <<a, b, d>>

Hist(S) == [k \in 1..N |-> Cardinality({x \in S : x % N = k - 1})]
Cor(x, y) == IF Defect = "conj" THEN Correlation(y, x) ELSE Correlation(x, y)
Cand(p) == IF Defect = "wrap" /\ p # 0 THEN {<<p, p - N + 1>>}
           ELSE IF Defect = "larger" THEN {<<c[2], c[1]>> : c \in Candidates(p, N)}
           ELSE Candidates(p, N)
Abs(x) == IF x < 0 THEN -x ELSE x
Plus(S, k) == {x + k : x \in S}

Init == a \in SUBSET (0..(L - 1)) /\ b = {} /\ d = 0
Next == \/ b = {} /\ b' \in SUBSET (0..(L - 1)) /\ UNCHANGED <<a, d>>
        \/ d < 2 * N /\ d' = d + 1 /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars

HA == Hist(a)
HB == Hist(b)
C == Cor(HA, HB)

Pairs == Total(C) = Cardinality(a) * Cardinality(b)
\* The same pairs, counted one by one.
Counted == \A k \in 0..(N - 1) :
             C[k + 1] = Cardinality({p \in a \X b : (p[2] - p[1] - k) % N = 0})
\* A common shift changes nothing; a shift of b moves the peak.
Common == Cor(Hist(Plus(a, d)), Hist(Plus(b, d))) = C
Moves == \A k \in 0..(N - 1) : Cor(HA, Hist(Plus(b, d)))[((k + d) % N) + 1] = C[k + 1]
\* The delay of a copy is among the peaks, and is one of the candidates.
Copy == a # {} => LET c == Cor(HA, Hist(Plus(a, d))) IN
          /\ (d % N) \in Peaks(c)
          /\ \A x \in Cand(d % N) : (x[1] - d) % N = 0 /\ (x[2] - d) % N = 0
                                    /\ Abs(x[1]) <= Abs(x[2]) /\ Abs(x[1]) <= N \div 2
                                    /\ Abs(x[1] - x[2]) = (IF d % N = 0 THEN 0 ELSE N)
Swapped == \A k \in 0..(N - 1) : Cor(HB, HA)[k + 1] = C[((N - k) % N) + 1]

\* Lists on a common origin keep their differences, and two adjacent windows
\* split the events.
AsList(S) == [i \in 1..Cardinality(S) |-> BInt(CHOOSE x \in S : Cardinality({y \in S : y < x}) = i - 1)]
Origin == IF Defect = "first" THEN BMax(BNeg(BMax(BNeg(AsList(a)[1]), BNeg(AsList(b)[1]))), BZero)
          ELSE BMax(AsList(a)[1], AsList(b)[1])
Norms == a # {} /\ b # {} /\ d <= L =>
  LET s == Normalised(<<AsList(a), AsList(b)>>, BInt(d), 1)
      o == BAdd(Origin, BInt(d))
      Back(x) == {BAdd(x[i], o) : i \in 1..Len(x)}
      Kept(S) == {BInt(x) : x \in {y \in S : y >= BToInt(o)}}
  IN Back(s[1]) = Kept(a) /\ Back(s[2]) = Kept(b)
Windows == a # {} /\ d <= L =>
  LET x == AsList(a) IN
  \A e \in 0..L :
     Window(x, 1, BInt(d), 1, BInt(e)) \o Shifted(Window(x, 1, BInt(d + e), 0, BZero), BInt(-e))
       = Window(x, 1, BInt(d), 0, BZero)
=============================================================================
