------------------------------- MODULE Header -------------------------------
(***************************************************************************)
(* Headers of epoch files: fields of four bytes, least significant first.  *)
(* A file says its kind by its tag and its epoch by its name; both have to *)
(* agree with its header, and a T3 file with the size it announces.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Kinds == {"T1", "T2", "T3", "T4"}
Number(k) == CASE k = "T1" -> 1 [] k = "T2" -> 2 [] k = "T3" -> 3 [] k = "T4" -> 4
Fields(k) == CASE k = "T1" -> 5 [] k = "T2" -> 6 [] k = "T3" -> 4 [] k = "T4" -> 5
HeadSize(k) == 4 * Fields(k)
Field(bytes, i) == SubSeq(bytes, 4 * i - 3, 4 * i)

IsKind(k, bytes) == Field(bytes, 1) \in {<<Number(k), 0, 0, 0>>, <<Number(k), 1, 0, 0>>}

\* The digits (base B, D of them to a byte) of a field, without leading zeros.
Digit(w, j, B, D) == LET b == w[Len(w) - ((j - 1) \div D)] IN (b \div B ^ ((D - j) % D)) % B
Canonical(w, B, D) ==
  LET all == [j \in 1..D * Len(w) |-> Digit(w, j, B, D)]
      nz == {j \in 1..D * Len(w) : all[j] # 0}
      first == IF nz = {} THEN D * Len(w) ELSE CHOOSE j \in nz : \A i \in nz : j <= i
  IN SubSeq(all, first, D * Len(w))
HexChar(d) == IF d < 10 THEN 48 + d ELSE 87 + d
EpochName(bytes) == LET c == Canonical(Field(bytes, 2), 16, 2) IN [j \in 1..Len(c) |-> HexChar(c[j])]

Small(w) == IF w[4] >= 8 THEN -1 ELSE w[1] + 256 * (w[2] + 256 * (w[3] + 256 * w[4]))
\* Bytes of a T3 body that are entries: the last word is filled with zeros.
Entries(bytes) ==
  LET n == Len(bytes) IN (n - 16) - Cardinality({i \in n - 3..n : i > 16 /\ bytes[i] = 0})

Reports(k, bytes, name, whole) ==
  (IF IsKind(k, bytes) THEN 0 ELSE 1) + (IF EpochName(bytes) = name THEN 0 ELSE 1)
  + (IF k = "T3" /\ whole = 1
     THEN (IF Field(bytes, 4) = <<8, 0, 0, 0>> THEN 0 ELSE 1) + (IF Small(Field(bytes, 3)) = Entries(bytes) THEN 0 ELSE 1)
     ELSE 0)
=============================================================================
