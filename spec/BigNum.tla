------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* Integers modulo 2^88, as sequences of eight base-2^11 limbs (least      *)
(* significant first).  TLC's own integers have 32 bits, while timestamps  *)
(* have 54, epochs add 15 more, and accumulated corrections need 88.       *)
(* A value stands for the integer of smallest magnitude congruent to it,   *)
(* so negative numbers need no special treatment.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

LB   == 2048          \* limb base
NL   == 8             \* number of limbs
BZero == <<0, 0, 0, 0, 0, 0, 0, 0>>
BOne  == <<1, 0, 0, 0, 0, 0, 0, 0>>

IsBig(x) == /\ DOMAIN x = 1..NL
            /\ \A i \in 1..NL : x[i] \in 0..(LB - 1)

\* Carry propagation of a limb vector whose entries may be negative or large.
Norm(s) ==
  LET c1 == s[1]
      c2 == s[2] + (c1 \div LB)
      c3 == s[3] + (c2 \div LB)
      c4 == s[4] + (c3 \div LB)
      c5 == s[5] + (c4 \div LB)
      c6 == s[6] + (c5 \div LB)
      c7 == s[7] + (c6 \div LB)
      c8 == s[8] + (c7 \div LB)
  IN <<c1 % LB, c2 % LB, c3 % LB, c4 % LB, c5 % LB, c6 % LB, c7 % LB, c8 % LB>>

\* TLC's \div and % are floor division and non-negative modulus: Norm is exact
\* for negative limbs.
BAdd(a, b) == Norm(<<a[1] + b[1], a[2] + b[2], a[3] + b[3], a[4] + b[4], a[5] + b[5], a[6] + b[6], a[7] + b[7], a[8] + b[8]>>)
BSub(a, b) == Norm(<<a[1] - b[1], a[2] - b[2], a[3] - b[3], a[4] - b[4], a[5] - b[5], a[6] - b[6], a[7] - b[7], a[8] - b[8]>>)
BNeg(a)    == BSub(BZero, a)

\* Product by a small integer k, |k| < 2^19.
BMulS(a, k) == Norm(<<a[1] * k, a[2] * k, a[3] * k, a[4] * k, a[5] * k, a[6] * k, a[7] * k, a[8] * k>>)

\* Full product modulo 2^88.
BMul(a, b) == Norm(<<
    a[1]*b[1],
    a[1]*b[2] + a[2]*b[1],
    a[1]*b[3] + a[2]*b[2] + a[3]*b[1],
    a[1]*b[4] + a[2]*b[3] + a[3]*b[2] + a[4]*b[1],
    a[1]*b[5] + a[2]*b[4] + a[3]*b[3] + a[4]*b[2] + a[5]*b[1],
    a[1]*b[6] + a[2]*b[5] + a[3]*b[4] + a[4]*b[3] + a[5]*b[2] + a[6]*b[1],
    a[1]*b[7] + a[2]*b[6] + a[3]*b[5] + a[4]*b[4] + a[5]*b[3] + a[6]*b[2] + a[7]*b[1],
    a[1]*b[8] + a[2]*b[7] + a[3]*b[6] + a[4]*b[5] + a[5]*b[4] + a[6]*b[3] + a[7]*b[2] + a[8]*b[1]>>)

\* Conversions from TLC integers.
BInt(n) == Norm(<<n, 0, 0, 0, 0, 0, 0, 0>>)

\* Unsigned comparison (as residues in 0 .. 2^88-1).
BLtU(a, b) ==
  (a[8] < b[8] \/ (a[8] = b[8] /\ (a[7] < b[7] \/ (a[7] = b[7] /\ (a[6] < b[6] \/ (a[6] = b[6] /\ (a[5] < b[5] \/ (a[5] = b[5] /\ (a[4] < b[4] \/ (a[4] = b[4] /\ (a[3] < b[3] \/ (a[3] = b[3] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1]))))))))))))))
BLeU(a, b) == ~BLtU(b, a)

BIsNeg(a)  == a[8] >= 1024
BAbs(a)    == IF BIsNeg(a) THEN BNeg(a) ELSE a
\* Signed comparison.
BLt(a, b)  == BIsNeg(BSub(a, b))
BLe(a, b)  == ~BLt(b, a)
BGe(a, b)  == BLe(b, a)
\* |a| <= b
BWithin(a, b) == BLeU(BAbs(a), b)

\* 2^n as a number, 0 <= n < 88.
Pow2Tab == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048>>
P2(n)   == Pow2Tab[n + 1]
BPow2(n) == [i \in 1..NL |-> IF i = (n \div 11) + 1 THEN P2(n % 11) ELSE 0]

\* a * 2^n
BShl(a, n) ==
  LET q == n \div 11
      m == P2(n % 11)
      A(i) == IF i - q >= 1 THEN a[i - q] * m ELSE 0
  IN Norm(<<A(1), A(2), A(3), A(4), A(5), A(6), A(7), A(8)>>)

\* floor(a / 2^n) of the unsigned residue, 0 <= n < 88.
BShr(a, n) ==
  LET q == n \div 11
      r == n % 11
      d == P2(r)
      u == P2(11 - r)
      L(i) == IF i <= NL THEN a[i] ELSE 0
      A(i) == (L(i + q) \div d) + (L(i + q + 1) % d) * u
  IN <<A(1), A(2), A(3), A(4), A(5), A(6), A(7), A(8)>>

\* The same for the signed value, rounded towards zero.
BAsr(a, n) == IF BIsNeg(a) THEN BNeg(BShr(BNeg(a), n)) ELSE BShr(a, n)

\* a modulo 2^n, 0 <= n <= 88.
BMod2(a, n) ==
  LET q == n \div 11
      d == P2(n % 11)
      A(i) == IF i <= q THEN a[i] ELSE IF i = q + 1 THEN a[i] % d ELSE 0
  IN <<A(1), A(2), A(3), A(4), A(5), A(6), A(7), A(8)>>

\* Signed representative modulo 2^n (n < 88): result in -2^(n-1) .. 2^(n-1)-1.
BSigned2(a, n) ==
  LET m == BMod2(a, n) IN
  IF BLtU(m, BPow2(n - 1)) THEN m ELSE BSub(m, BPow2(n))

\* Byte i (0 = least significant) of the residue.
BByte(a, i) ==
  LET q == (8 * i) \div 11
      r == (8 * i) % 11
      lo == a[q + 1] \div P2(r)
      hi == IF q + 2 <= NL THEN a[q + 2] * P2(11 - r) ELSE 0
  IN (lo + hi) % 256

\* The eight bytes of a 64-bit number, little endian.
B8Bytes(a) == <<BByte(a,0), BByte(a,1), BByte(a,2), BByte(a,3),
                BByte(a,4), BByte(a,5), BByte(a,6), BByte(a,7)>>

\* Number from eight little-endian bytes b[o+1..o+8].
BFrom8(b, o) ==
  LET n1 == b[o+1] + 256 * b[o+2] + 65536 * b[o+3]        \* 24 bits
      n2 == b[o+4] + 256 * b[o+5] + 65536 * b[o+6]        \* 24 bits
      n3 == b[o+7] + 256 * b[o+8]                         \* 16 bits
      x2 == <<0, 0, n2 * 4, 0, 0, 0, 0, 0>>               \* 2^24 = 2^22 * 4
      x3 == <<0, 0, 0, 0, n3 * 16, 0, 0, 0>>              \* 2^48 = 2^44 * 16
  IN Norm(<<n1, 0, n2 * 4, 0, n3 * 16, 0, 0, 0>>)

\* Number from four little-endian bytes.
BFrom4(b, o) ==
  LET n1 == b[o+1] + 256 * b[o+2] + 65536 * b[o+3]
  IN Norm(<<n1, 0, b[o+4] * 4, 0, 0, 0, 0, 0>>)

\* Quotient and remainder of the unsigned residue by a TLC integer 0 < d < 2^19.
BDivMod(a, d) ==
  LET r8 == a[8] % d
      n7 == r8 * LB + a[7]
      n6 == (n7 % d) * LB + a[6]
      n5 == (n6 % d) * LB + a[5]
      n4 == (n5 % d) * LB + a[4]
      n3 == (n4 % d) * LB + a[3]
      n2 == (n3 % d) * LB + a[2]
      n1 == (n2 % d) * LB + a[1]
  IN [q |-> <<n1 \div d, n2 \div d, n3 \div d, n4 \div d, n5 \div d, n6 \div d, n7 \div d, a[8] \div d>>,
      r |-> n1 % d]
BDivS(a, d) == BDivMod(a, d).q
BModS(a, d) == BDivMod(a, d).r

\* Sequence sums and folds over numbers.
RECURSIVE BSumSeq(_, _)
BSumSeq(s, i) == IF i > Len(s) THEN BZero ELSE BAdd(s[i], BSumSeq(s, i + 1))

\* Low part as a TLC integer: value modulo 2^n, n <= 30.
BLow(a, n) == LET m == BMod2(a, n) IN m[1] + LB * m[2] + (LB * LB) * (m[3] % 256)
\* Is a in 0 .. 2^30-1, i.e. exactly representable as a TLC integer?
BFits(a) == BLtU(a, BPow2(30))
BToInt(a) == BLow(a, 30)
=============================================================================
