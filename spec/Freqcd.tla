------------------------------- MODULE Freqcd -------------------------------
(***************************************************************************)
(* What the frequency-correction daemon promises, independently of how it  *)
(* buffers, blocks or rounds.                                              *)
(*                                                                         *)
(* The daemon sees a stream of events, each carrying a timestamp, and a    *)
(* stream of frequency corrections.  A correction f says that time should  *)
(* run faster by f * 2^-FRAC.  The corrected timestamp of an event is its  *)
(* measured timestamp plus the accumulated correction                      *)
(*                                                                         *)
(*     acc  =  sum over the events so far of  elapsed * f * 2^-FRAC        *)
(*                                                                         *)
(* where elapsed is the time since the previous event, modulo the range of *)
(* timestamps, and f is the correction in force when the event arrived.    *)
(* acc is kept exactly, in units of 2^-FRAC.                               *)
(*                                                                         *)
(* The module is parametric in the number domain: MCFreqcd instantiates it *)
(* with small integers for exhaustive checking, TraceFreqcd with 88-bit    *)
(* integers for checking what the real program did.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS
  Zero,              \* the number zero
  Plus(_, _),        \* sum of two numbers
  Times(_, _),       \* number times (signed) correction
  Elapsed(_, _),     \* Elapsed(t, r): time from r to t, modulo the range
  Near(_, _, _, _),  \* Near(out, t, acc, tol): is out within tol units of
                     \*   t + acc * 2^-FRAC, modulo the range
  FMax               \* corrections must be strictly smaller in magnitude

\* Daemon state, as far as the environment can tell.
\*   f     correction in force
\*   set   has any event been processed
\*   ref   timestamp of the last processed event
\*   acc   exact accumulated correction
\*   nupd  number of times the correction was replaced
InitState(f0) == [f |-> f0, set |-> FALSE, ref |-> Zero, acc |-> Zero, nupd |-> 0]

\* An event with timestamp t is processed.
Digest(s, t) ==
  IF ~s.set THEN [s EXCEPT !.set = TRUE, !.ref = t]
  ELSE [s EXCEPT !.ref = t,
                 !.acc = Plus(s.acc, Times(Elapsed(t, s.ref), s.f))]

ValidF(v) == -FMax < v /\ v < FMax

\* A complete line of the correction stream has been received.  ok says that
\* it is a decimal integer, v is its value.
Update(s, ok, v) ==
  IF ok /\ ValidF(v) THEN [s EXCEPT !.f = v, !.nupd = @ + 1] ELSE s

\* Slack granted to any implementation: rounding of the correction to whole
\* units and of the elapsed time, once, plus once per change of correction.
\* The number of reads it took to receive the events is not in this bound.
\* Without any correction timestamps do not change at all.
Slack(s) == IF s.f = 0 /\ s.nupd = 0 THEN 0 ELSE 2 + s.nupd

\* May an event with timestamp t, just digested into s, be emitted as out?
MayEmit(s, t, out) == Near(out, t, s.acc, Slack(s))
=============================================================================
