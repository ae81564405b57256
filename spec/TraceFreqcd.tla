----------------------------- MODULE TraceFreqcd -----------------------------
(***************************************************************************)
(* Checks recorded executions of the freqcd program against module Freqcd. *)
(*                                                                         *)
(* The trace file (JSON, named by the environment variable TRACE) holds    *)
(* many runs.  A run is the program's static configuration plus a sequence *)
(* of rounds, one per wait for input; a round has the bytes the program    *)
(* was given on its event stream (i), on its correction stream (f), and    *)
(* the bytes it wrote (o) before waiting again.  The run also says whether *)
(* the program saw its input end (eof), and whether it left corrections    *)
(* unread when it waited again (left).                                     *)
(* When both streams delivered in one round either order of processing is  *)
(* allowed, so the specification branches.                                 *)
(*                                                                         *)
(* A run never blocks: the first promise broken is recorded in bad, and    *)
(* printed when the run ends.  A run is accepted if some branch ends with  *)
(* no promise broken.                                                      *)
(***************************************************************************)
EXTENDS BigNum, SequencesExt, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACE).runs

TSBITS == 54
FRAC   == 34
LOWB   == 10

BTimes(e, f)    == BMul(e, BInt(f))
BElapsed(t, r)  == BMod2(BSub(t, r), TSBITS)
BNear(out, t, acc, tol) ==
  BWithin(BSub(BShl(BSub(out, t), FRAC), acc), BShl(BInt(tol), FRAC))

A == INSTANCE Freqcd WITH
       Zero <- BZero, Plus <- BAdd, Times <- BTimes, Elapsed <- BElapsed,
       Near <- BNear, FMax <- 2097152

VARIABLES run,   \* index of the run
          k,     \* rounds consumed
          s,     \* state of module Freqcd
          pend,  \* bytes of the incomplete event at the end of the input
          line,  \* incomplete correction line
          exp,   \* events digested and not yet written
          opend, \* bytes of the incomplete event at the end of the output
          nin, nout,
          fault, \* has a fault been injected
          bad    \* first promise broken, "" if none
vars == <<run, k, s, pend, line, exp, opend, nin, nout, fault, bad>>

(* ----- events ----------------------------------------------------------- *)
\* The 64-bit event at bytes o+1..o+8.
Event(b, o, legacy) ==
  IF legacy = 0 THEN BFrom8(b, o)
  ELSE BFrom8(<<b[o+5], b[o+6], b[o+7], b[o+8], b[o+1], b[o+2], b[o+3], b[o+4]>>, 0)
TsOf(e)  == BShr(e, LOWB)
LowOf(e) == e[1] % 1024

(* ----- correction lines -------------------------------------------------- *)
IsDigit(c) == 48 <= c /\ c <= 57
\* Value of the digits t[i..], saturating well above the valid range.
Digits(t, i) ==
  FoldLeft(LAMBDA v, c : IF v > 100000000 THEN v ELSE v * 10 + (c - 48), 0,
           SubSeq(t, i, Len(t)))
Parse(t) ==
  LET sgn == Len(t) > 0 /\ t[1] \in {43, 45}
      i   == IF sgn THEN 2 ELSE 1
      ok  == Len(t) >= i /\ \A j \in i..Len(t) : IsDigit(t[j])
  IN IF ~ok THEN [ok |-> FALSE, v |-> 0]
     ELSE [ok |-> TRUE, v |-> IF sgn /\ t[1] = 45 THEN -Digits(t, i) ELSE Digits(t, i)]

\* Consume correction bytes: returns [s, line].
TakeFreq(st, ln, bytes) ==
  FoldLeft(LAMBDA a, c :
             IF c = 10
             THEN LET p == Parse(a.line) IN [s |-> A!Update(a.s, p.ok, p.v), line |-> <<>>]
             ELSE [a EXCEPT !.line = Append(@, c)],
           [s |-> st, line |-> ln], bytes)

\* Consume the n events in b: returns a record with fields s and q, the state
\* and the digested events.  (b is a field of the accumulator so that TLC
\* evaluates it once.)
TakeIn(st, q0, b0, n, legacy) ==
  FoldLeft(LAMBDA a, j :
             LET e  == Event(a.b, 8 * (j - 1), legacy)
                 s2 == A!Digest(a.s, TsOf(e))
             IN [a EXCEPT !.s = s2, !.q = Append(@, [t |-> TsOf(e), low |-> LowOf(e), s |-> s2])],
           [s |-> st, q |-> q0, b |-> b0], [j \in 1..n |-> j])

\* Compare the m events in b with the head of the queue q: the first broken
\* promise, if any.
Compare(q0, b0, m, legacy) ==
  FoldLeft(LAMBDA a, j :
             IF a.bad # "" THEN a
             ELSE LET e == Event(a.b, 8 * (j - 1), legacy)
                  IN IF LowOf(e) # a.q[j].low
                     THEN [a EXCEPT !.bad = "detector bits or order of events changed"]
                     ELSE IF ~A!MayEmit(a.q[j].s, a.q[j].t, TsOf(e))
                     THEN [a EXCEPT !.bad = "corrected timestamp outside the allowed range"]
                     ELSE a,
           [b |-> b0, q |-> q0, bad |-> ""], [j \in 1..m |-> j]).bad

(* ----- one round ----------------------------------------------------------- *)
FirstBad(old, list) ==
  IF old # "" THEN old
  ELSE LET hits == SelectSeq(list, LAMBDA x : x[1] /\ x[2] # "") IN
       IF hits = <<>> THEN "" ELSE hits[1][2]

Round(order) ==
  LET R    == Runs[run]
      r    == R.rounds[k + 1]
      n    == (Len(pend) + Len(r.i)) \div 8
      fq0  == IF order = "fi" THEN TakeFreq(s, line, r.f) ELSE [s |-> s, line |-> line]
      inn  == TakeIn(fq0.s, exp, pend \o r.i, n, R.legacy)
      fq1  == IF order = "fi" THEN [s |-> inn.s, line |-> fq0.line]
              ELSE TakeFreq(inn.s, line, r.f)
      m    == (Len(opend) + Len(r.o)) \div 8
      nq   == Len(exp) + n
      mm   == IF m <= nq THEN m ELSE nq
      flt  == fault \/ r.w = 1
  IN /\ k < Len(R.rounds)
     /\ order = "fi" => (r.i # <<>> /\ r.f # <<>>)
     /\ s' = fq1.s
     /\ line' = fq1.line
     /\ pend' = SubSeq(inn.b, 8 * n + 1, Len(inn.b))
     /\ LET ob == opend \o r.o IN opend' = SubSeq(ob, 8 * m + 1, Len(ob))
     /\ exp' = SubSeq(inn.q, mm + 1, nq)
     /\ nin' = nin + n
     /\ nout' = nout + m
     /\ fault' = flt
     /\ bad' = FirstBad(bad,
          << <<m > nq, "an event was written that was not received (or twice)">>,
             <<TRUE, Compare(inn.q, opend \o r.o, mm, R.legacy)>>,
             <<~flt /\ m < nq, "a received event was not written before waiting again">>,
             <<~flt /\ (Len(opend) + Len(r.o)) % 8 # 0, "part of an event was written">> >>)
     /\ k' = k + 1
     /\ UNCHANGED run

\* End of the run: exit status and leftovers.
Finish ==
  LET R == Runs[run]
      b2 == FirstBad(bad,
          << <<R.exit = 999, "the program did not terminate">>,
             <<R.exit < 0, "the program crashed">>,
             <<~fault /\ exp # <<>>, "a received event was never written">>,
             <<~fault /\ R.eof = 0, "the program stopped before its input ended">>,
             <<~fault /\ R.left = 1, "corrections that were available were not read">>,
             <<~fault /\ R.exit # 0, "the program failed">> >>)
  IN /\ k = Len(R.rounds)
     /\ PrintT(<<"END", R.id, nin, nout, b2>>)
     /\ bad' = b2
     /\ k' = k + 1
     /\ UNCHANGED <<run, s, pend, line, exp, opend, nin, nout, fault>>

Init ==
  /\ run \in 1..Len(Runs)
  /\ k = 0
  /\ s = A!InitState(Runs[run].f0)
  /\ pend = <<>> /\ line = <<>> /\ exp = <<>> /\ opend = <<>>
  /\ nin = 0 /\ nout = 0 /\ fault = FALSE /\ bad = ""

Next == Round("if") \/ Round("fi") \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
