-------------------------------- MODULE Job --------------------------------
(***************************************************************************)
(* What every program of the package owes whoever calls it: it does its    *)
(* whole job and says so by its exit status, or it does not and says that. *)
(*                                                                         *)
(* A job has options, one or two sources, and a destination.  A source is  *)
(*   ok        there, and in order                                         *)
(*   empty     there, without a single event                               *)
(*   missing   not there                                                   *)
(*   kind      a directory in place of a file, or the reverse              *)
(*   half text cut gap                                                     *)
(*             damaged: part of an event or of the end is missing, words   *)
(*             that are no numbers, an epoch that is not there             *)
(*   unused    not needed                                                  *)
(* and a destination is                                                    *)
(*   console   the standard output                                         *)
(*   new old   a file yet to be created, or to be replaced                 *)
(*   nodir kind                                                            *)
(*             cannot be created                                           *)
(*   full      there is no room for what is written                        *)
(*   same      one of the sources                                          *)
(*   unsaid    not given, though needed                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* Programs for which no events at all are in order.
Lenient == {"convert", "report", "list", "correct"}
\* Programs that write while they read.
Streams == {"emit", "correct"}

\* Is it known of a source that it is no good without reading from it?  freqcd
\* opens a directory as it would a pipe.
Gone(prog, st) == st = "missing" \/ (st = "kind" /\ prog # "correct")
Usable(prog, st) == st \in {"ok", "unused"} \/ (st = "empty" /\ prog \in Lenient)

\* May the job be done?  whole: the sources are read before the destination
\* is written, so that it may be one of them.
Doable(J) ==
  /\ J.opts = "ok"
  /\ \A i \in 1..Len(J.srcs) : Usable(J.prog, J.srcs[i])
  /\ J.dst \in {"console", "new", "old"} \/ (J.dst = "same" /\ J.whole = 1)

\* Is it plain, before any event is read, that the job cannot be done?  The
\* events are the first source; in a search both are.
Hopeless(J) ==
  \/ J.opts # "ok"
  \/ Gone(J.prog, J.srcs[1])
  \/ J.dst = "same" /\ J.whole = 0

(***************************************************************************)
(* O is what came of the job J:                                            *)
(*   code    exit status: 0 done, 1 not done, 2 killed by a signal, 3 did  *)
(*           not end                                                       *)
(*   result  1: the result is where it belongs                             *)
(*   printed 1: there is something on the standard output                  *)
(*   said    1: there is something on the standard error                   *)
(*   kept    1: the sources are what they were                             *)
(*   spared  1: what was at the destination before is still there          *)
(***************************************************************************)
Verdict(J, O) ==
  IF O.code = 3 THEN "the program did not end"
  ELSE IF O.code = 2 THEN "the program crashed"
  ELSE IF O.kept = 0 /\ ~(Doable(J) /\ J.dst = "same") THEN "a source was changed"
  ELSE IF Doable(J)
  THEN IF O.code # 0 THEN "the program failed although nothing was in its way"
       ELSE IF O.result = 0 THEN "the program ended well without a result" ELSE ""
  ELSE IF O.code = 0 THEN "the program ended well although its job could not be done"
  ELSE IF O.printed = 1 /\ J.prog \notin Streams THEN "a failing program printed a result"
  ELSE IF O.said = 0 THEN "a program failed without a word"
  ELSE IF Hopeless(J) /\ O.spared = 0 THEN "the destination was touched before the sources and options were looked at"
  ELSE ""
=============================================================================
