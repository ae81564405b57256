---------------------------- MODULE TraceFreqArg ----------------------------
(***************************************************************************)
(* Checks invocations of the real freqcd program against module FreqArg.   *)
(* A case is the text given to -f, whether -d was given, the exit status,  *)
(* whether a previously existing output file was left exactly as it was,   *)
(* and the events read and written: two events 2^53 units apart.           *)
(***************************************************************************)
EXTENDS BigNum, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACE).runs
A == INSTANCE FreqArg WITH Sat <- 100000000

VARIABLES run, done
vars == <<run, done>>

\* Corrections are in units of 2^-34, below 2^21; decimal ones in units of
\* 10^-10, so their magnitude must be below 2^21 * 10^10 / 2^34.
MaxMag(dec) == IF dec = 1 THEN 1220703 ELSE 2097151
Ten10 == BMul(BInt(100000), BInt(100000))
Elapsed == BPow2(53)

\* The correction seen at elapsed time 2^53 must match the text: exact value
\* elapsed * v * unit, up to one unit of 2^-34 (decimal units are rounded to
\* binary ones) and two units of rounding.
Matches(dec, v, delta) ==
  IF dec = 1
  THEN BWithin(BSub(BMul(delta, Ten10), BMul(BShl(BInt(v), 53), BOne)),
               BMul(BAdd(BPow2(19), BInt(2)), Ten10))
  ELSE BWithin(BSub(delta, BShl(BInt(v), 19)), BInt(2))

Clause(R) ==
  LET ok == A!Accepted(R.t, MaxMag(R.dec)) IN
  IF R.exit = 999 THEN "the program did not terminate"
  ELSE IF R.exit < 0 THEN "the program crashed"
  ELSE IF ~ok
  THEN IF R.exit = 0 THEN "an invalid correction was accepted"
       ELSE IF R.kept # 1 THEN "the output was touched although the correction was refused"
       ELSE ""
  ELSE IF R.exit # 0 THEN "a valid correction was refused"
       ELSE IF Len(R.o) # 16 THEN "events were lost or added"
       ELSE LET i1 == BFrom8(R.i, 0)  i2 == BFrom8(R.i, 8)
                o1 == BFrom8(R.o, 0)  o2 == BFrom8(R.o, 8)
                d  == BSigned2(BSub(BShr(o2, 10), BShr(i2, 10)), 54)
            IN IF o1 # i1 THEN "the first event was changed"
               ELSE IF o2[1] % 1024 # i2[1] % 1024 THEN "detector bits changed"
               ELSE IF ~Matches(R.dec, A!Value(R.t), d) THEN "the correction in effect is not the one given"
               ELSE ""

Init == run \in 1..Len(Runs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED run
        /\ PrintT(<<"END", Runs[run].id, 1, 1, Clause(Runs[run])>>)
Spec == Init /\ [][Next]_vars
=============================================================================
