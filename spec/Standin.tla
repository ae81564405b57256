------------------------------ MODULE Standin -------------------------------
(***************************************************************************)
(* freqcd is installed as a script that stands in for it until it is       *)
(* called for the first time: it compiles the program, which takes its     *)
(* place, and passes the call on.                                          *)
(*                                                                         *)
(* What is found under the name freqcd is "standin", "program", or         *)
(* anything else ("none").  A step is a number of calls, or of             *)
(* compilations with _postinstall, at the same time:                       *)
(*   kind    call; compile: to the place of the program; fresh: to one     *)
(*           where there is nothing; here: to the package itself           *)
(*   tool    ok, or the compiler is missing, fails, or fails after it      *)
(*           removed what it was to write                                  *)
(*   shut    1: the place of the program cannot be written to              *)
(*   kill    1: the calls are killed on their way                          *)
(* and of every call there is                                              *)
(*   same    1: output, files and status are those of the program itself   *)
(*           with these arguments, in this directory, with this input;     *)
(*           of a compilation: the program is where it was to go           *)
(*   failed  1: the status is an error                                     *)
(*   said    1: there is a message on the standard error                   *)
(*   printed 1: there is something on the standard output                  *)
(*   made    1: there are other files than before; of a compilation: what  *)
(*           was where the program was to go is not there any more         *)
(* and afterwards                                                          *)
(*   place   what is under the name freqcd                                 *)
(*   noted   1: freqcd_path in the package has that name                   *)
(*   litter  1: the directories of the program or of the package, or the   *)
(*           working directory have files they should not have             *)
(***************************************************************************)
EXTENDS Integers, Sequences

Places == {"standin", "program"}
Works(place, s) == (s.kind = "call" /\ place = "program") \/ (s.tool = "ok" /\ s.shut = 0)

\* What may be under the name after step s.
After(place, s) ==
  IF ~Works(place, s) \/ s.kind \in {"fresh", "here"} THEN {place}
  ELSE IF place = "standin" /\ s.kill = 1 THEN Places
  ELSE {"program"}

CompileVerdict(works, o) ==
  IF works
  THEN IF o.failed = 1 THEN "a compilation failed without need"
       ELSE IF o.same = 0 THEN "the program was not compiled to where it was to go" ELSE ""
  ELSE IF o.failed = 0 THEN "a compilation ended well although it failed"
  ELSE IF o.said = 0 THEN "a compilation failed without a word"
  ELSE IF o.made = 1 THEN "a compilation that failed changed what was there"
  ELSE ""

CallVerdict(works, o) ==
  IF works
  THEN IF o.failed = 1 /\ o.same = 0 THEN "a call of the stand-in failed although it could be compiled"
       ELSE IF o.same = 0 THEN "a call of the stand-in did not do what the program does" ELSE ""
  ELSE IF o.failed = 0 THEN "a call ended well although there is no program"
  ELSE IF o.said = 0 THEN "a call failed without a word"
  ELSE IF o.printed = 1 THEN "a call that failed wrote to its output"
  ELSE IF o.made = 1 THEN "a call that failed left files"
  ELSE ""

StepVerdict(place, s) ==
  LET works == Works(place, s)
      one(o) == IF s.kind = "call" THEN CallVerdict(works, o) ELSE CompileVerdict(works, o)
      bad == {i \in 1..Len(s.outs) : s.kill = 0 /\ one(s.outs[i]) # ""}
  IN IF bad # {} THEN one(s.outs[CHOOSE i \in bad : \A j \in bad : i <= j])
     ELSE IF s.place \notin Places THEN "there is neither the program nor its stand-in any more"
     ELSE IF s.place \notin After(place, s)
     THEN IF s.place = "standin" THEN "the program did not take the place of its stand-in"
          ELSE "something took the place of the stand-in"
     ELSE IF place = "standin" /\ s.place = "program" /\ s.kind = "call" /\ s.kill = 0 /\ s.noted = 0 THEN "the place of the program was not noted"
     ELSE IF s.litter = 1 /\ s.kill = 0 THEN "files were left behind"
     ELSE ""
=============================================================================
