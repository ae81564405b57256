----------------------------- MODULE EpochFile -----------------------------
(***************************************************************************)
(* Epoch files (qcrypto types T1, T2, T3, T4): what their bytes mean.      *)
(*                                                                         *)
(*   T1  header (tag, epoch, length, bits, base bits), then one 64-bit     *)
(*       event word each as two 32-bit halves, high half first; 17 low     *)
(*       bits of the epoch, 37 bits of time at 4 ps, six flag bits, four   *)
(*       detector bits; ended by a zero event                              *)
(*   T2  header (tag, epoch, length, width, base width, protocol), then    *)
(*       a bit stream in 32-bit words, most significant bit first: time    *)
(*       differences of the given width at 125 ps, 0 escaping to 32 bits   *)
(*       and 1 ending the file, each followed by its base bits             *)
(*   T4  header (tag, epoch, length, width, base width), then index        *)
(*       differences plus two, packed like T2                              *)
(*   T3  header (tag, epoch, length, bits), then one byte per entry, first *)
(*       entry in the most significant byte of each 32-bit word, padded    *)
(*       with zero                                                         *)
(*                                                                         *)
(* Header fields are 32-bit little-endian.  Length 0 means not stated.     *)
(***************************************************************************)
EXTENDS BigNum, SequencesExt

HeadLen(k) == CASE k = "T1" -> 20 [] k = "T2" -> 24 [] k = "T4" -> 20 [] k = "T3" -> 16
Field4(b, i) == BFrom4(b, 4 * (i - 1))          \* i-th header field
EpochOf(b)  == Field4(b, 2)
LengthOf(b) == Field4(b, 3)

\* What a reader of a file finds: the events, or an error.
Bad(why) == [ok |-> FALSE, why |-> why, e |-> <<>>]
Good(e)  == [ok |-> TRUE, why |-> "", e |-> e]
Counted(b, e) ==
  IF LengthOf(b) # BZero /\ LengthOf(b) # BInt(Len(e)) THEN Bad("count") ELSE Good(e)

(* ----- T1 ----------------------------------------------------------------- *)
\* Event word at offset o: halves swapped.
W1(b, o) == BFrom8(<<b[o+5], b[o+6], b[o+7], b[o+8], b[o+1], b[o+2], b[o+3], b[o+4]>>, 0)
T1(b) ==
  IF Len(b) < 20 THEN Bad("header")
  ELSE LET n == (Len(b) - 20) \div 8
           r == FoldLeft(LAMBDA a, i :
                  IF a.end THEN a
                  ELSE LET w == W1(a.b, 20 + 8 * (i - 1)) IN
                       IF w = BZero THEN [a EXCEPT !.end = TRUE]
                       ELSE [a EXCEPT !.e = Append(@, [t |-> BShr(w, 10), p |-> w[1] % 16])],
                  [b |-> b, e |-> <<>>, end |-> FALSE], [i \in 1..n |-> i])
       IN IF ~r.end THEN Bad("cut") ELSE Counted(b, r.e)

(* ----- bit streams -------------------------------------------------------- *)
\* w bits (at most 16) from bit position p (0 first) of the stream after h
\* header bytes; a 32-bit word holds its bytes in reverse.
SByte(b, h, k) == LET o == h + 4 * (k \div 4) + (3 - (k % 4)) + 1
                  IN IF o <= Len(b) THEN b[o] ELSE 0
Bits16(b, h, p, w) ==
  LET k == p \div 8
      x == 65536 * SByte(b, h, k) + 256 * SByte(b, h, k + 1) + SByte(b, h, k + 2)
  IN (x \div 2^(24 - (p % 8) - w)) % 2^(w)
Bits(b, h, p, w) ==
  IF w <= 16 THEN BInt(Bits16(b, h, p, w))
  ELSE BAdd(BShl(BInt(Bits16(b, h, p, w - 16)), 16), BInt(Bits16(b, h, p + w - 16, 16)))
NBits(b, h) == 32 * ((Len(b) - h) \div 4)       \* whole words only

\* Raw differences and bases of a packed file.
Packed(b, h, width, bw) ==
  IF Len(b) < h THEN Bad("header")
  ELSE
  LET n == NBits(b, h)
      r == FoldLeft(LAMBDA a, i :
             IF a.end # "" THEN a
             ELSE IF a.p + width > n THEN [a EXCEPT !.end = "cut"]
             ELSE LET d == Bits(a.b, h, a.p, width) IN
                  IF d = BOne
                  THEN IF a.p + width + bw > n THEN [a EXCEPT !.end = "cut"]
                       ELSE IF Bits(a.b, h, a.p + width, bw) # BZero THEN [a EXCEPT !.end = "base"]
                       ELSE [a EXCEPT !.end = "ok"]
                  ELSE LET x == IF d = BZero THEN 32 ELSE 0 IN
                       IF a.p + width + x + bw > n THEN [a EXCEPT !.end = "cut"]
                       ELSE LET v == IF x = 32 THEN Bits(a.b, h, a.p + width, 32) ELSE d
                            IN [a EXCEPT !.e = Append(@, [d |-> v, p |-> Bits16(a.b, h, a.p + width + x, bw)]),
                                         !.p = @ + width + x + bw],
             [b |-> b, p |-> 0, e |-> <<>>, end |-> ""],
             [i \in 1..(n \div (width + bw) + 1) |-> i])
  IN IF r.end = "ok" THEN Counted(b, r.e) ELSE Bad(IF r.end = "" THEN "cut" ELSE r.end)

\* Running sums from start, every difference less sub.
Summed(es, start, sub) ==
  FoldLeft(LAMBDA a, x : LET t == BSub(BAdd(a.t, x.d), sub)
                         IN [t |-> t, e |-> Append(a.e, [t |-> t, p |-> x.p])],
           [t |-> start, e |-> <<>>], es).e

T2(b) ==
  IF Len(b) < 24 THEN Bad("header")
  ELSE LET r == Packed(b, 24, BToInt(Field4(b, 4)), BToInt(Field4(b, 5)))
       IN IF r.ok THEN Good(Summed(r.e, BShl(BMod2(EpochOf(b), 17), 32), BZero)) ELSE r
T4(b) ==
  IF Len(b) < 20 THEN Bad("header")
  ELSE LET r == Packed(b, 20, BToInt(Field4(b, 4)), BToInt(Field4(b, 5)))
       IN IF r.ok THEN Good(Summed(r.e, BZero, BInt(2))) ELSE r

(* ----- times asked for ---------------------------------------------------- *)
\* Units of 4 ps from a file, with the full epoch or not.
Units4(k, t, full, ep) ==
  LET u == IF k = "T2" THEN BShl(t, 5) ELSE t
  IN IF full = 1 THEN BAdd(u, BShl(BShr(ep, 17), 54)) ELSE u
\* Is v (256 times the returned number) the time u in units of 1/res ns?
\* Fractional numbers carry 64 significant bits; others are rounded down.
TimeOK(v, u, res, frac) ==
  LET x == BMulS(u, res) IN
  IF frac = 1 THEN BWithin(BSub(v, x), BShr(x, 64))
  ELSE v = BShl(BShr(x, 8), 8)

(* ----- T3 ----------------------------------------------------------------- *)
Single(d) == CASE d = 1 -> 1 [] d = 2 -> 2 [] d = 4 -> 3 [] d = 8 -> 4 [] OTHER -> 0
T3Entry(b, i) == SByte(b, 16, i - 1)
T3(b) ==
  LET n == BToInt(LengthOf(b))
      r == FoldLeft(LAMBDA a, i :
             LET x == T3Entry(a.b, i)
                 s == Single(x \div 16)
                 o == Single(x % 16)
             IN IF s # 0 /\ o # 0
                THEN [a EXCEPT !.m[4 * (s - 1) + o] = @ + 1, !.ok = @ + 1]
                ELSE [a EXCEPT !.ga = @ + (IF s = 0 THEN 1 ELSE 0), !.gb = @ + (IF o = 0 THEN 1 ELSE 0)],
             [b |-> b, m |-> [i \in 1..16 |-> 0], ga |-> 0, gb |-> 0, ok |-> 0], [i \in 1..n |-> i])
  IN [n |-> n, m |-> r.m, ga |-> r.ga, gb |-> r.gb, ok |-> r.ok,
      er |-> r.m[1] + r.m[6] + r.m[11] + r.m[16], gd |-> r.m[3] + r.m[8] + r.m[9] + r.m[14]]

(* ----- dates -------------------------------------------------------------- *)
\* An epoch lasts 2^32 * 125 ps; there are 8*10^9 units of 125 ps a second.
PerSec == BMul(BInt(8000), BInt(1000000))
PerMicro == BInt(8000)
IsEpochOf(ep, sec) == LET x == BMul(sec, PerSec) IN
  BLe(BShl(ep, 32), x) /\ BLt(x, BShl(BAdd(ep, BOne), 32))
\* us microseconds are the start of the epoch, to the microsecond
IsDateOf(us, ep) == BWithin(BSub(BMul(us, PerMicro), BShl(ep, 32)), PerMicro)

(* ----- directories -------------------------------------------------------- *)
\* a, b: sequences of epoch numbers; -1: no first epoch.  Small integers here,
\* relative to some base.
Overlap(a, b, first) ==
  LET S == {a[i] : i \in 1..Len(a)} \cap {b[i] : i \in 1..Len(b)}
      R == {x \in S : first # -1 => x >= first}
  IN IF R = {} THEN [e |-> -1, k |-> 0]
     ELSE LET m == CHOOSE x \in R : \A y \in R : x <= y
              k == CHOOSE c \in 1..Len(a) + 1 : m + c \notin R /\ \A j \in 0..(c - 1) : (m + j) \in R
          IN [e |-> m, k |-> k]
=============================================================================
