------------------------------- MODULE MCJob -------------------------------
(***************************************************************************)
(* A program that looks at its options, then at whether its sources are    *)
(* there, then opens the destination and reads and writes in pieces, gives *)
(* what module Job demands; programs with a common mistake do not.         *)
(***************************************************************************)
EXTENDS Job, TLC
CONSTANTS Defect
VARIABLES job, pc, at, out
vars == <<job, pc, at, out>>

Sources == {"ok", "empty", "missing", "kind", "half"}
Jobs == [prog : {"convert", "find"}, srcs : [1..1 -> Sources] \cup [1..2 -> Sources],
         dst : {"console", "new", "old", "nodir", "full", "same", "unsaid"}, opts : {"ok", "bad"}, whole : {0, 1}]
Start == [code |-> 0, result |-> 0, printed |-> 0, said |-> 0, kept |-> 1, spared |-> 1]

Init == job \in Jobs /\ pc = "options" /\ at = 1 /\ out = Start

Fail == /\ pc' = "end" /\ UNCHANGED <<job, at>>
        /\ out' = [out EXCEPT !.code = IF Defect = "exit0" THEN 0 ELSE 1,
                              !.said = IF Defect = "mute" THEN 0 ELSE 1]
Go(to) == pc' = to /\ UNCHANGED <<job, at, out>>

Options == pc = "options" /\ IF job.opts # "ok" \/ job.dst = "unsaid" THEN Fail ELSE Go("look")
N == Len(job.srcs)
Needed == IF Defect = "onlyfirst" THEN {1} ELSE 1..N
Look ==
  /\ pc = "look"
  /\ IF Defect = "early" /\ job.dst = "old" /\ out.spared = 1
     THEN out' = [out EXCEPT !.spared = 0] /\ UNCHANGED <<job, pc, at>>
     ELSE IF \E i \in Needed : Gone(job.prog, job.srcs[i]) THEN Fail
     ELSE IF job.dst = "same" /\ job.whole = 0 /\ Defect # "itself" THEN Fail
     ELSE Go(IF job.whole = 1 THEN "read" ELSE "open")
Open ==
  /\ pc = "open"
  /\ IF job.dst \in {"nodir", "kind"} THEN Fail
     ELSE /\ pc' = IF job.whole = 1 THEN "finish" ELSE "read"
          /\ out' = [out EXCEPT !.spared = IF job.dst = "old" THEN 0 ELSE @,
                                !.kept = IF job.dst = "same" THEN 0 ELSE @]
          /\ UNCHANGED <<job, at>>
Read ==
  /\ pc = "read"
  /\ IF at > N THEN Go(IF job.whole = 1 THEN "open" ELSE "finish")
     ELSE IF job.srcs[at] = "half" /\ Defect # "swallow" THEN Fail
     ELSE IF job.srcs[at] = "empty" /\ job.prog \notin Lenient THEN Fail
     ELSE /\ at' = at + 1 /\ UNCHANGED <<job, pc>>
          /\ out' = IF Defect = "piecewise" /\ job.dst = "console" THEN [out EXCEPT !.printed = 1] ELSE out
Done ==
  /\ pc = "finish" /\ job.dst # "full" /\ pc' = "end" /\ UNCHANGED <<job, at>>
  /\ out' = [out EXCEPT !.result = 1, !.printed = IF job.dst = "console" THEN 1 ELSE 0]

Full == pc = "finish" /\ job.dst = "full"
        /\ IF Defect = "unwritten" THEN pc' = "end" /\ UNCHANGED <<job, at, out>> ELSE Fail

Next == Options \/ Look \/ Open \/ Read \/ Done \/ Full
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == pc = "end" => Verdict(job, out) = ""
Ends == <>(pc = "end")
=============================================================================
