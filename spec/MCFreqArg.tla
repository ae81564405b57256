----------------------------- MODULE MCFreqArg -----------------------------
(***************************************************************************)
(* Design model of the path a correction takes into the daemon: a word of  *)
(* W values is filled digit by digit, converted from decimal units, range  *)
(* checked, and only then the output file is touched.  TLC enumerates      *)
(* every text over a small alphabet; with Emit the texts are also printed *)
(* as test cases for the real program.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, SequencesExt

CONSTANTS Alphabet, MaxLen, FMax, W, Num, Den, Defect, Emit
\* Defects: wrap (no overflow check), prefix (trailing text ignored),
\* late (file touched before the check), convert (range checked before the
\* conversion), truncated (conversion in a word that overflows)
A == INSTANCE FreqArg WITH Sat <- 10 * W

VARIABLES text, dec, i, acc, neg, st, opened, effect
vars == <<text, dec, i, acc, neg, st, opened, effect>>

Init ==
  /\ text \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
  /\ dec \in BOOLEAN
  /\ i = 1 /\ acc = 0 /\ neg = FALSE /\ st = "sign"
  /\ opened = (Defect = "late") /\ effect = 0
  /\ (Emit => PrintT(<<"CASE", ToJson([t |-> text, d |-> dec])>>))

\* The largest magnitude accepted, stated without computing.
MaxMag == IF dec THEN (FMax * Den - 1) \div Num ELSE FMax - 1

Sign == /\ st = "sign"
        /\ IF i <= Len(text) /\ text[i] \in {43, 45}
           THEN i' = i + 1 /\ neg' = (text[i] = 45)
           ELSE UNCHANGED <<i, neg>>
        /\ st' = IF i' <= Len(text) /\ A!IsDigit(text[i']) THEN "digits" ELSE "refused"
        /\ UNCHANGED <<text, dec, acc, opened, effect>>
Digit == /\ st = "digits" /\ i <= Len(text) /\ A!IsDigit(text[i])
         /\ LET v == acc * 10 + (text[i] - 48) IN
            IF Defect = "wrap" THEN acc' = v % W ELSE acc' = IF v >= W THEN W ELSE v
         /\ i' = i + 1
         /\ UNCHANGED <<text, dec, neg, st, opened, effect>>
Junk == /\ st = "digits" /\ i <= Len(text) /\ ~A!IsDigit(text[i])
        /\ st' = IF Defect = "prefix" THEN "check" ELSE "refused"
        /\ UNCHANGED <<text, dec, i, acc, neg, opened, effect>>
EndText == /\ st = "digits" /\ i > Len(text)
           /\ st' = IF acc >= W THEN "refused" ELSE "check"
           /\ UNCHANGED <<text, dec, i, acc, neg, opened, effect>>
Check ==
  /\ st = "check"
  /\ LET inRange == IF ~dec THEN acc < FMax
                    ELSE IF Defect = "convert" THEN acc < FMax
                    ELSE IF Defect = "truncated" THEN ((acc * Num) \div Den) % W < FMax
                    ELSE acc * Num < FMax * Den
         bin == IF dec THEN IF Defect = "truncated" THEN ((acc * Num) \div Den) % W ELSE (acc * Num) \div Den
                ELSE acc
     IN IF inRange THEN /\ st' = "run" /\ opened' = TRUE
                        /\ effect' = IF neg THEN -bin ELSE bin
        ELSE st' = "refused" /\ UNCHANGED <<opened, effect>>
  /\ UNCHANGED <<text, dec, i, acc, neg>>

Next == Sign \/ Digit \/ Junk \/ EndText \/ Check
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OK == A!Accepted(text, MaxMag)
Refusal == st = "refused" => ~OK /\ ~opened /\ effect = 0
Acceptance == st = "run" =>
   /\ OK
   /\ LET v == A!Value(text) IN
      IF dec THEN LET e == effect * Den - v * Num IN -Den < e /\ e < Den
      ELSE effect = v
   /\ -FMax < effect /\ effect < FMax
Decides == <>(st \in {"refused", "run"})
=============================================================================
