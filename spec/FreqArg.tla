------------------------------ MODULE FreqArg ------------------------------
(***************************************************************************)
(* What a correction text means.  A correction is a decimal integer, with  *)
(* an optional sign.  In binary units it must be below FMax in magnitude;   *)
(* in decimal units (Num binary units per Den decimal units) its binary    *)
(* equivalent must be.  Anything else is refused: it has no effect at all. *)
(* Texts are sequences of character codes.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

CONSTANTS Sat   \* values are computed up to this bound

IsDigit(c) == 48 <= c /\ c <= 57
Signed(t)  == Len(t) > 0 /\ t[1] \in {43, 45}
First(t)   == IF Signed(t) THEN 2 ELSE 1
WellFormed(t) == Len(t) >= First(t) /\ \A j \in First(t)..Len(t) : IsDigit(t[j])
\* Magnitude of a well-formed text, saturating at Sat.
Magnitude(t) ==
  FoldLeft(LAMBDA v, c : IF v >= Sat THEN Sat ELSE v * 10 + (c - 48), 0,
           SubSeq(t, First(t), Len(t)))
Negative(t) == t[1] = 45
\* Well formed, magnitude at most MaxMag.
Accepted(t, MaxMag) == WellFormed(t) /\ Magnitude(t) <= MaxMag
Value(t) == IF Negative(t) THEN -Magnitude(t) ELSE Magnitude(t)
=============================================================================
