----------------------------- MODULE MCStandin ------------------------------
(***************************************************************************)
(* Calls at the same time, each of which may be killed at any point and    *)
(* whose compiler may fail, with a compiler that removes what it is to     *)
(* write and writes in pieces.  Compiling to a name of one's own and       *)
(* renaming it leaves the name freqcd whole at every moment, and every     *)
(* call that is not killed and whose compiler works runs the program.      *)
(***************************************************************************)
EXTENDS Standin, FiniteSets
CONSTANTS Calls, Defect
VARIABLES name, own, pc, tool, cwd, out
vars == <<name, own, pc, tool, cwd, out>>

Init ==
  /\ name = "standin" /\ own = [c \in Calls |-> "none"] /\ pc = [c \in Calls |-> "call"]
  /\ tool \in [Calls -> {"ok", "none", "fails", "unlinks"}]
  /\ cwd = [c \in Calls |-> "work"] /\ out = [c \in Calls |-> "none"]

To(c, p) == pc' = [pc EXCEPT ![c] = p]
InPlace == Defect = "inplace"
\* Where the compiler writes
Put(c, what) == IF InPlace THEN name' = what /\ UNCHANGED own ELSE own' = [own EXCEPT ![c] = what] /\ UNCHANGED name

Call(c) == pc[c] = "call" /\ UNCHANGED <<name, own, tool, out>> /\
  IF name = "standin" THEN To(c, "unlink") /\ cwd' = [cwd EXCEPT ![c] = IF Defect = "cd" THEN "package" ELSE @]
  ELSE To(c, "exec") /\ UNCHANGED cwd
Unlink(c) == pc[c] = "unlink" /\ UNCHANGED <<tool, cwd>> /\
  IF tool[c] \in {"none", "fails"} THEN To(c, "end") /\ out' = [out EXCEPT ![c] = "failed"] /\ UNCHANGED <<name, own>>
  ELSE IF tool[c] = "unlinks" THEN To(c, "end") /\ out' = [out EXCEPT ![c] = "failed"] /\ Put(c, "none")
  ELSE To(c, "write") /\ Put(c, "part") /\ UNCHANGED out
Write(c) == pc[c] = "write" /\ To(c, "move") /\ Put(c, "program") /\ UNCHANGED <<tool, cwd, out>>
Move(c) == pc[c] = "move" /\ To(c, "exec") /\ UNCHANGED <<tool, cwd, out>> /\
  IF InPlace THEN UNCHANGED <<name, own>>
  ELSE IF Defect = "elsewhere" THEN own' = [own EXCEPT ![c] = "none"] /\ UNCHANGED name
  ELSE name' = own[c] /\ own' = [own EXCEPT ![c] = "none"]
Exec(c) == pc[c] = "exec" /\ To(c, "end") /\ UNCHANGED <<name, own, tool, cwd>> /\
  out' = [out EXCEPT ![c] = IF name = "program" THEN cwd[c] ELSE IF name = "standin" THEN "again" ELSE "failed"]
Kill(c) == pc[c] # "end" /\ To(c, "end") /\ out' = [out EXCEPT ![c] = "killed"] /\ UNCHANGED <<name, own, tool, cwd>>

Next == \E c \in Calls : Call(c) \/ Unlink(c) \/ Write(c) \/ Move(c) \/ Exec(c) \/ Kill(c)
Spec == Init /\ [][Next]_vars /\ \A c \in Calls : WF_vars(Call(c) \/ Unlink(c) \/ Write(c) \/ Move(c) \/ Exec(c))

Whole == name \in Places
Runs == \A c \in Calls : pc[c] = "end" /\ out[c] # "killed" =>
          /\ tool[c] = "ok" => out[c] = "work"
          /\ out[c] \in {"work", "failed"}
\* as module Standin has it
Becomes == (\A c \in Calls : pc[c] = "end") =>
  LET ran == {c \in Calls : out[c] = "work"}
      steps == [kind |-> "call", tool |-> IF \E c \in Calls : tool[c] = "ok" THEN "ok" ELSE "none", shut |-> 0, kill |-> IF ran = {} THEN 1 ELSE 0]
  IN name \in After("standin", steps)
Ends == <>(\A c \in Calls : pc[c] = "end")
=============================================================================
