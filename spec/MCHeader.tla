------------------------------ MODULE MCHeader ------------------------------
(***************************************************************************)
(* Names and numbers: a name is taken as that of a number exactly if it    *)
(* has the number's value and no digit to spare.  Bytes of two digits, two *)
(* bytes.                                                                  *)
(***************************************************************************)
EXTENDS Header, TLC
CONSTANTS B, MaxL, Defect
VARIABLES w, name, verdict
vars == <<w, name, verdict>>

RECURSIVE Value(_)
Value(s) == IF s = <<>> THEN 0 ELSE B * Value(SubSeq(s, 1, Len(s) - 1)) + s[Len(s)]
Names == UNION {[1..l -> 0..B - 1] : l \in 1..MaxL}
Known(c, s) ==
  CASE Defect = "prefix" -> Len(s) <= Len(c) /\ SubSeq(c, 1, Len(s)) = s
    [] Defect = "value" -> Value(c) = Value(s)
    [] Defect = "padded" -> [j \in 1..2 * Len(w) |-> Digit(w, j, B, 2)] = s
    [] OTHER -> c = s
Init == w \in [1..2 -> 0..B * B - 1] /\ name \in Names /\ verdict = "none"
Next == verdict = "none" /\ verdict' = (IF Known(Canonical(w, B, 2), name) THEN "same" ELSE "other") /\ UNCHANGED <<w, name>>
Spec == Init /\ [][Next]_vars
Right ==
  verdict # "none" =>
    (verdict = "same") = (/\ Value(name) = w[1] + B * B * w[2]
                          /\ (name[1] = 0 => Len(name) = 1))
=============================================================================
