----------------------------- MODULE EventFile -----------------------------
(***************************************************************************)
(* Timestamp files: what their bytes mean.                                 *)
(*                                                                         *)
(* An event is a 64-bit word: 54 bits of time in units of 4 ps, six flag   *)
(* bits that carry no meaning here, and a 4-bit detector pattern.  A file  *)
(* is the sequence of its events in one of three formats:                  *)
(*   "1"  eight little-endian bytes per event (legacy: the two 32-bit      *)
(*        halves swapped)                                                  *)
(*   "0"  two lines of eight hexadecimal digits, low half first            *)
(*   "2"  one line of sixteen hexadecimal digits                           *)
(* Files are sequences of byte values; times are BigNum numbers.           *)
(***************************************************************************)
EXTENDS BigNum, SequencesExt

TSBITS == 54

Width(fmt) == CASE fmt = "0" -> 18 [] fmt = "1" -> 8 [] fmt = "2" -> 17

(* ----- reading ------------------------------------------------------------ *)
HexVal(c) == IF 48 <= c /\ c <= 57 THEN c - 48
             ELSE IF 97 <= c /\ c <= 102 THEN c - 87
             ELSE IF 65 <= c /\ c <= 70 THEN c - 55 ELSE 0
IsHex(c) == (48 <= c /\ c <= 57) \/ (97 <= c /\ c <= 102) \/ (65 <= c /\ c <= 70)
Byte2(b, o) == 16 * HexVal(b[o]) + HexVal(b[o + 1])

\* The word of the event whose bytes start at b[o+1].
Word(fmt, legacy, b, o) ==
  CASE fmt = "1" /\ legacy = 0 -> BFrom8(b, o)
    [] fmt = "1" /\ legacy = 1 ->
         BFrom8(<<b[o+5], b[o+6], b[o+7], b[o+8], b[o+1], b[o+2], b[o+3], b[o+4]>>, 0)
    [] fmt = "2" ->
         BFrom8(<<Byte2(b, o+15), Byte2(b, o+13), Byte2(b, o+11), Byte2(b, o+9),
                  Byte2(b, o+7), Byte2(b, o+5), Byte2(b, o+3), Byte2(b, o+1)>>, 0)
    [] fmt = "0" ->
         BFrom8(<<Byte2(b, o+7), Byte2(b, o+5), Byte2(b, o+3), Byte2(b, o+1),
                  Byte2(b, o+16), Byte2(b, o+14), Byte2(b, o+12), Byte2(b, o+10)>>, 0)

TimeOf(w) == BShr(w, 10)
PatOf(w)  == w[1] % 16

\* The events of a file: a sequence of records.
Events(fmt, legacy, bytes) ==
  FoldLeft(LAMBDA a, i :
             LET w == Word(fmt, legacy, a.b, a.w * (i - 1))
             IN [a EXCEPT !.e = Append(@, [t |-> TimeOf(w), p |-> PatOf(w)])],
           [b |-> bytes, w |-> Width(fmt), e |-> <<>>],
           [i \in 1..(Len(bytes) \div Width(fmt)) |-> i]).e

(* ----- writing ------------------------------------------------------------ *)
Hex(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Hex2(n) == <<Hex(n \div 16), Hex(n % 16)>>
WordOf(t, p) == BAdd(BShl(t, 10), BInt(p))
EncodeWord(fmt, legacy, w) ==
  LET b == B8Bytes(w) IN
  CASE fmt = "1" /\ legacy = 0 -> b
    [] fmt = "1" /\ legacy = 1 -> SubSeq(b, 5, 8) \o SubSeq(b, 1, 4)
    [] fmt = "2" -> Hex2(b[8]) \o Hex2(b[7]) \o Hex2(b[6]) \o Hex2(b[5])
                    \o Hex2(b[4]) \o Hex2(b[3]) \o Hex2(b[2]) \o Hex2(b[1]) \o <<10>>
    [] fmt = "0" -> Hex2(b[4]) \o Hex2(b[3]) \o Hex2(b[2]) \o Hex2(b[1]) \o <<10>>
                    \o Hex2(b[8]) \o Hex2(b[7]) \o Hex2(b[6]) \o Hex2(b[5]) \o <<10>>

\* Is bytes the file of exactly the events e, with no flag set?
IsFileOf(fmt, legacy, e0, bytes) ==
  /\ Len(bytes) = Width(fmt) * Len(e0)
  /\ FoldLeft(LAMBDA a, i :
                IF ~a.ok THEN a
                ELSE [a EXCEPT !.ok = SubSeq(a.b, a.w * (i - 1) + 1, a.w * i)
                                      = EncodeWord(fmt, legacy, WordOf(a.e[i].t, a.e[i].p))],
              [b |-> bytes, e |-> e0, w |-> Width(fmt), ok |-> TRUE],
              [i \in 1..Len(e0) |-> i]).ok

(* ----- units -------------------------------------------------------------- *)
\* A time of t units of 4 ps in units of 1/res ns (res = 256, 8 or 1), times
\* 256: exactly, or rounded down to a whole number of units.
Scaled(t, res, frac) ==
  LET x == BMulS(t, res) IN
  IF frac = 1 THEN x ELSE BShl(BShr(x, 8), 8)

(* ----- filters ------------------------------------------------------------ *)
\* Bitwise operations on 4-bit patterns.
Bit(p, k) == (p \div (2^k)) % 2
And4(p, q) == Bit(p,0)*Bit(q,0) + 2*Bit(p,1)*Bit(q,1) + 4*Bit(p,2)*Bit(q,2) + 8*Bit(p,3)*Bit(q,3)

\* Does the pattern filter keep a pattern, and as what?
PatKeeps(f, p) ==
  CASE f.mask = 0 /\ f.inv = 0 -> p = f.pat
    [] f.mask = 0 /\ f.inv = 1 -> p # f.pat
    [] f.mask = 1 /\ f.inv = 0 -> And4(p, f.pat) # 0
    [] f.mask = 1 /\ f.inv = 1 -> p = 0 \/ p - And4(p, f.pat) # 0
PatBecomes(f, p) ==
  CASE f.mask = 0 -> p
    [] f.mask = 1 /\ f.inv = 0 -> And4(p, f.pat)
    [] f.mask = 1 /\ f.inv = 1 -> p - And4(p, f.pat)

\* Bounds are in eighths of a second; one is 32 * 10^9 units of 4 ps.
Eighth == BMul(BInt(32000), BInt(1000000))
Bound(k) == BMul(BInt(k), Eighth)
TimeKeeps(f, t) ==
  /\ f.lo # -1 => BGe(t, Bound(f.lo))
  /\ f.hi # -1 => BLe(t, Bound(f.hi))

\* The events a whole filter keeps; f.pat = -1 means no pattern filter.
Filtered(e0, f) ==
  FoldLeft(LAMBDA a, i :
             LET e == a.e[i] IN
             IF (f.pat = -1 \/ PatKeeps(f, e.p)) /\ TimeKeeps(f, e.t)
             THEN [a EXCEPT !.o = Append(@, [t |-> e.t, p |-> IF f.pat = -1 THEN e.p ELSE PatBecomes(f, e.p)])]
             ELSE a,
           [e |-> e0, o |-> <<>>], [i \in 1..Len(e0) |-> i]).o

(* ----- statistics --------------------------------------------------------- *)
Count(e0, Test(_)) ==
  FoldLeft(LAMBDA n, e : IF Test(e.p) THEN n + 1 ELSE n, 0, e0)
Stats(e) ==
  [n    |-> Len(e),
   ch   |-> [k \in 1..4 |-> Count(e, LAMBDA p : Bit(p, k - 1) = 1)],
   mult |-> Count(e, LAMBDA p : p \notin {0, 1, 2, 4, 8}),
   none |-> Count(e, LAMBDA p : p = 0),
   pats |-> {e[i].p : i \in 1..Len(e)}]
=============================================================================
