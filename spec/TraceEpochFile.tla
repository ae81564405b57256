--------------------------- MODULE TraceEpochFile ---------------------------
(***************************************************************************)
(* Checks recorded calls of the epoch file functions against EpochFile.    *)
(***************************************************************************)
EXTENDS EpochFile, FiniteSets, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACE).runs
VARIABLES run, done
vars == <<run, done>>

FirstOf(l) == LET h == SelectSeq(l, LAMBDA x : x # "") IN IF h = <<>> THEN "" ELSE h[1]

Decode(k, b) == CASE k = "T1" -> T1(b) [] k = "T2" -> T2(b) [] k = "T4" -> T4(b)

\* The first wrong element of returned times ts0 and patterns ps0.
SameEvents(k, e0, ts0, ps0, full, ep, res, frac) ==
  IF Len(ts0) # Len(e0) \/ Len(ps0) # Len(e0) THEN "events were lost or added"
  ELSE FoldLeft(LAMBDA a, i :
                  IF a.bad # "" THEN a
                  ELSE IF a.p[i] # a.e[i].p THEN [a EXCEPT !.bad = "a detector pattern is wrong"]
                  ELSE IF k = "T4"
                       THEN IF a.t[i] # a.e[i].t THEN [a EXCEPT !.bad = "an index is wrong"] ELSE a
                  ELSE IF ~TimeOK(a.t[i], Units4(k, a.e[i].t, full, ep), res, frac)
                       THEN [a EXCEPT !.bad = "a timestamp is wrong"]
                  ELSE a,
                [e |-> e0, t |-> ts0, p |-> ps0, bad |-> ""], [i \in 1..Len(e0) |-> i]).bad

Read(R) ==
  LET d == Decode(R.k, R.bytes) IN
  IF d.ok
  THEN IF R.err = 1 THEN "a complete file was refused"
       ELSE SameEvents(R.k, d.e, R.t, R.p, R.full, EpochOf(R.bytes), R.res, R.frac)
  ELSE IF R.err = 1 THEN ""
       ELSE CASE d.why = "count" -> "a file with a wrong number of events was read without an error"
              [] d.why = "base"  -> "a terminator with detector bits was read without an error"
              [] OTHER           -> "a file cut short was read without an error"

\* write_T1 of events R.e (time within the epoch, pattern)
Hex(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexVal(c) == IF 48 <= c /\ c <= 57 THEN c - 48 ELSE IF 97 <= c /\ c <= 102 THEN c - 87 ELSE -1
FromHex(s) == FoldLeft(LAMBDA a, c : BAdd(BShl(a, 4), BInt(HexVal(c))), BZero, s)
Write(R) ==
  LET d == T1(R.bytes)
      hi == BShl(BMod2(R.epoch, 17), 37)
      exp == [i \in 1..Len(R.e) |-> [t |-> BAdd(hi, R.e[i].t), p |-> R.e[i].p]]
  IN FirstOf(<<
       IF R.files # 1 THEN "not exactly one file was written" ELSE "",
       IF (\E i \in 1..Len(R.name) : HexVal(R.name[i]) < 0) \/ FromHex(R.name) # R.epoch
         THEN "the file is not named after its epoch" ELSE "",
       IF ~d.ok THEN "the file written is not complete" ELSE "",
       IF d.ok /\ (EpochOf(R.bytes) # R.epoch \/ LengthOf(R.bytes) # BInt(Len(R.e)))
         THEN "the header written is wrong" ELSE "",
       IF d.ok /\ d.e # exp THEN "the events written are wrong" ELSE "">>)

Service(R) ==
  LET n == BToInt(LengthOf(R.bytes))
      have == 4 * ((Len(R.bytes) - 16) \div 4)
  IN IF n > have THEN IF R.err = 1 THEN "" ELSE "entries that are missing were counted"
     ELSE IF R.err = 1
          THEN IF (Len(R.bytes) - 16) % 4 = 0 THEN "a complete file was refused" ELSE ""
     ELSE LET s == T3(R.bytes) IN FirstOf(<<
       IF R.m # s.m THEN "the coincidence matrix is wrong" ELSE "",
       IF R.ok # s.ok THEN "the good count is wrong" ELSE "",
       IF R.g # <<s.ga, s.gb>> THEN "the garbage counts are wrong" ELSE "",
       IF R.qexact # 1 THEN "the error rate is not rounded to three decimals" ELSE "",
       IF s.er + s.gd = 0 THEN IF R.q1000 # 500 THEN "the error rate without coincidences is not 0.5" ELSE ""
       ELSE LET x == 2 * (R.q1000 * (s.er + s.gd) - 1000 * s.er)
            IN IF x > s.er + s.gd \/ -x > s.er + s.gd THEN "the error rate is wrong" ELSE "">>)

Date(R) ==
  FirstOf(<<
    IF R.hassec = 0 THEN ""
    ELSE IF Len(R.name) # 8 \/ \E i \in 1..Len(R.name) : HexVal(R.name[i]) < 0
         THEN "the epoch is not eight lower-case hexadecimal digits"
    ELSE IF ~IsEpochOf(FromHex(R.name), R.sec) THEN "the epoch of a date is wrong" ELSE "",
    IF R.hasepoch = 0 THEN ""
    ELSE FirstOf(<<
      IF R.int # R.epoch THEN "a name converts to the wrong number" ELSE "",
      IF R.back # R.epoch \/ R.back16 # R.epoch THEN "a number converted to a name and back differs" ELSE "",
      IF ~IsDateOf(R.us, R.epoch) THEN "the date of an epoch is wrong" ELSE "",
      IF BLt(R.next, R.epoch) THEN "the epoch of the date of an epoch is before it" ELSE "">>)>>)

Lap(R) ==
  LET o == Overlap(R.a, R.b, R.first) IN FirstOf(<<
    IF R.e # o.e THEN "the first overlapping epoch is wrong" ELSE "",
    IF R.n # o.k THEN "the number of overlapping epochs is wrong" ELSE "",
    IF R.same # 1 THEN "the answers with and without the number differ" ELSE "">>)

\* Events of consecutive files R.files of epochs R.first + R.skip, ...; times
\* are 256 times nanoseconds.  A common whole number of wraps is immaterial.
Concat(R) ==
  IF R.missing = 1 THEN IF R.err = 1 THEN "" ELSE "a missing or damaged epoch was not reported"
  ELSE IF R.err = 1 THEN "complete epochs were refused"
  ELSE
  LET all == FoldLeft(LAMBDA a, b :
               LET d == Decode(R.k, b)
                   w == BShr(EpochOf(b), 17)
               IN [e |-> a.e \o [i \in 1..Len(d.e) |->
                                   BAdd(Units4(R.k, d.e[i].t, 0, BZero), BShl(w, 54))]],
               [e |-> <<>>], R.files).e
  IN IF Len(R.t) # Len(all) THEN "events were lost or added"
     ELSE IF all = <<>> THEN ""
     ELSE LET c == BSub(all[1], R.t[1]) IN
          IF BMod2(c, 54) # BZero THEN "a timestamp is wrong"
          ELSE IF \E i \in 1..Len(all) : BSub(all[i], R.t[i]) # c
               THEN "a timestamp is wrong or does not continue the one before" ELSE ""

Clause(R) ==
  IF R.fail # "" THEN R.fail
  ELSE CASE R.kind = "read" -> Read(R)
         [] R.kind = "write" -> Write(R)
         [] R.kind = "T3" -> Service(R)
         [] R.kind = "date" -> Date(R)
         [] R.kind = "overlap" -> Lap(R)
         [] R.kind = "concat" -> Concat(R)

Size(R) == IF R.fail # "" THEN 0 ELSE CASE R.kind \in {"read", "concat"} -> Len(R.t) + 1
             [] R.kind = "write" -> Len(R.e) + 1 [] OTHER -> 1

Init == run \in 1..Len(Runs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED run
        /\ PrintT(<<"END", Runs[run].id, Size(Runs[run]), 1, Clause(Runs[run])>>)
Spec == Init /\ [][Next]_vars
=============================================================================
