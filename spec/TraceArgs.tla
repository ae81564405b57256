----------------------------- MODULE TraceArgs ------------------------------
(***************************************************************************)
(* Checks calls of the real freqcd against module Args.  Every source, the *)
(* standard input (no name) and files, had two events of its own, the      *)
(* second far behind the first, and in both formats.  A run has            *)
(*   words   of the call                                                   *)
(*   srcs    names n and bytes w of the sources                            *)
(*   corrs   names n of files of corrections, and the texts t in them      *)
(*   exit, said, out: status, whether there was a message, what was        *)
(*           written to the standard output                                *)
(*   files   names n and new contents b of files that are new or changed   *)
(***************************************************************************)
EXTENDS BigNum, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACE).runs
A == INSTANCE Args
VARIABLES run, done
vars == <<run, done>>
Ten10 == BMul(BInt(100000), BInt(100000))

\* The event at offset k, words swapped if in legacy format.
Event(w, k, x) == IF x = 1 THEN BFrom8([j \in 1..8 |-> w[k + IF j <= 4 THEN j + 4 ELSE j - 4]], 0) ELSE BFrom8([j \in 1..8 |-> w[k + j]], 0)

\* elapsed * v, in units of 2^-34 or 10^-10, but for rounding
Matches(dec, v, e, delta) ==
  IF dec = 1
  THEN BWithin(BSub(BMul(delta, Ten10), BMul(e, BInt(v))), BMul(BAdd(BShr(e, 34), BInt(3)), Ten10))
  ELSE BWithin(BSub(BShl(delta, 34), BMul(e, BInt(v))), BShl(BInt(3), 34))

Events(c, R, w, b) ==
  LET corr == {k \in 1..Len(R.corrs) : c.F # <<>> /\ R.corrs[k].n = c.F}
      text == IF corr # {} THEN R.corrs[CHOOSE k \in corr : TRUE].t ELSE c.f
      v  == IF text = <<>> THEN 0 ELSE A!N!Value(text)
      i1 == Event(w, 0, c.x)  i2 == Event(w, 8, c.x)
      o1 == Event(b, 0, c.x)  o2 == Event(b, 8, c.x)
      e  == BSub(BShr(i2, 10), BShr(i1, 10))
      d  == BSigned2(BSub(BShr(o2, 10), BShr(i2, 10)), 54)
  IN IF Len(b) # 16 THEN "the events asked for are not in the place asked for"
     ELSE IF o1 # i1 THEN "the first event is not that of the source asked for"
     ELSE IF o2[1] % 1024 # i2[1] % 1024 THEN "the second event is not that of the source asked for"
     ELSE IF v = 0 THEN IF o2 # i2 THEN "an event was changed although there is no correction" ELSE ""
     ELSE IF ~Matches(IF corr # {} THEN 0 ELSE c.d, v, e, d) THEN "the correction in effect is not the one asked for"
     ELSE ""

Refused(R, touched) ==
  IF R.exit = 0 THEN "a call that is in error ended well"
  ELSE IF R.said = 0 THEN "a call that is in error got no message"
  ELSE IF R.out # <<>> THEN "a call that is in error wrote to its output"
  ELSE IF touched /\ R.files # <<>> THEN "a call that is in error touched files"
  ELSE ""

Clause(R) ==
  LET c == A!Parse(R.words)
      src == {k \in 1..Len(R.srcs) : R.srcs[k].n = c.i}
      missing == src = {} \/ (c.F # <<>> /\ \A k \in 1..Len(R.corrs) : R.corrs[k].n # c.F)
      dest == {k \in 1..Len(R.files) : R.files[k].n = c.o}
  IN IF R.exit = 999 THEN "the program did not end"
     ELSE IF R.exit < 0 THEN "the program crashed"
     ELSE IF c.res = "stop" THEN Refused(R, TRUE)
     ELSE IF c.F # <<>> /\ c.F = c.o THEN ""      \* one file in two roles
     ELSE IF missing THEN Refused(R, src = {})
     ELSE IF R.exit # 0 THEN "a call in order was refused"
     ELSE IF c.o = <<>>
     THEN IF R.files # <<>> THEN "files were touched that were not asked for"
          ELSE Events(c, R, R.srcs[CHOOSE k \in src : TRUE].w, R.out)
     ELSE IF R.out # <<>> THEN "events were written to the standard output although a file was asked for"
     ELSE IF dest = {} THEN "the file asked for was not written"
     ELSE IF Len(R.files) # 1 THEN "files were touched that were not asked for"
     ELSE Events(c, R, R.srcs[CHOOSE k \in src : TRUE].w, R.files[1].b)

Init == run \in 1..Len(Runs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED run
        /\ PrintT(<<"END", Runs[run].id, 1, 1, Clause(Runs[run])>>)
Spec == Init /\ [][Next]_vars
=============================================================================
