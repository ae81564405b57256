----------------------------- MODULE MCTestcase -----------------------------
(***************************************************************************)
(* Sessions of the generator on a small directory: a session may end       *)
(* between any two steps (interrupt, refused number, failed write).        *)
(* Events are abstract: the number requested; 9 is a refused (negative) one.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Numbers, MaxN, Names, Defect

None == "-"
VARIABLES files, mode, arg, out, tmp, todo, done, printed, pc, first, want
vars == <<files, mode, arg, out, tmp, todo, done, printed, pc, first, want>>

Lists == UNION {[1..n -> Numbers] : n \in 0..MaxN}
Old == <<99>>                       \* contents from before
Init ==
  /\ files \in [Names -> {<<>>, Old}] /\ first = files
  /\ mode \in {"write", "file", "stdin"}
  /\ arg \in IF mode = "file" THEN Names ELSE {None}
  /\ out \in IF mode = "write" THEN Names \cup {None} ELSE {None}
  /\ want \in IF mode = "file" THEN {files[arg]} ELSE Lists
  /\ todo = want /\ done = <<>> /\ printed = <<>> /\ tmp = None
  /\ pc = "start"

Start ==
  /\ pc = "start"
  /\ CASE mode = "write" ->
            /\ files' = IF out # None /\ Defect # "append" THEN [files EXCEPT ![out] = <<>>] ELSE files
            /\ tmp' = None /\ pc' = "run"
       [] mode = "file" ->
            /\ IF Defect = "clobber" THEN files' = [files EXCEPT ![arg] = <<>>] ELSE UNCHANGED files
            /\ tmp' = None /\ pc' = "run"
       [] mode = "stdin" ->
            \* a name that no file has
            \E n \in {"x", "y"} :
              /\ Defect = "clash" \/ n \notin DOMAIN files
              /\ tmp' = n /\ pc' = "run"
              /\ files' = [m \in DOMAIN files \cup {n} |-> IF m = n THEN todo ELSE files[m]]
  /\ UNCHANGED <<mode, arg, out, todo, done, printed, first, want>>

Step ==
  /\ pc = "run" /\ todo # <<>>
  /\ IF mode = "write" /\ todo[1] = 9
     THEN /\ pc' = "end" /\ UNCHANGED <<files, done, printed, todo>>          \* refused
     ELSE /\ pc' = pc
          /\ todo' = Tail(todo)
          /\ IF mode # "write" THEN printed' = Append(printed, todo[1]) /\ UNCHANGED <<done, files>>
             ELSE /\ done' = Append(done, todo[1]) /\ UNCHANGED printed
                  /\ files' = IF out = None THEN files
                              ELSE [files EXCEPT ![out] = IF Defect = "last" THEN <<todo[1]>> ELSE Append(@, todo[1])]
  /\ UNCHANGED <<mode, arg, out, tmp, first, want>>

Cleanup(fs) == IF tmp = None THEN fs ELSE [n \in DOMAIN fs \ {tmp} |-> fs[n]]
Finish ==
  /\ pc = "end" \/ (pc = "run" /\ todo = <<>>)
  /\ pc' = "over" /\ files' = Cleanup(files)
  /\ UNCHANGED <<mode, arg, out, tmp, todo, done, printed, first, want>>
Interrupt ==
  /\ pc = "run" /\ todo # <<>>
  /\ pc' = "over" /\ files' = IF Defect = "leave" THEN files ELSE Cleanup(files)
  /\ UNCHANGED <<mode, arg, out, tmp, todo, done, printed, first, want>>
Next == Start \/ Step \/ Finish \/ Interrupt
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ Step \/ Finish)

IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* The output file holds exactly the events accepted so far, in order.
Output == pc \in {"run", "end", "over"} /\ out # None => files[out] = done /\ IsPrefix(done, want)
Complete == pc = "over" /\ todo = <<>> =>
              IF mode = "write" THEN done = want ELSE printed = want
Listing == IsPrefix(printed, want)
\* Nothing else changes, and nothing is left behind.
Others == \A n \in DOMAIN first : n # out => n \in DOMAIN files /\ files[n] = first[n]
Nothing == pc = "over" => DOMAIN files = DOMAIN first
Ends == <>(pc = "over")
=============================================================================
