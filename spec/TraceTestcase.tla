---------------------------- MODULE TraceTestcase ----------------------------
(***************************************************************************)
(* Checks recorded sessions of the test case generator.                    *)
(***************************************************************************)
EXTENDS Testcase, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACE).runs
VARIABLES run, done
vars == <<run, done>>

FirstOf(l) == LET h == SelectSeq(l, LAMBDA x : x # "") IN IF h = <<>> THEN "" ELSE h[1]

Side(R) == FirstOf(<<
  IF R.intact # 1 THEN "a file other than the output was changed" ELSE "",
  IF R.left # 0 THEN "a temporary file was left behind" ELSE "">>)

\* bytes is the output (file or standard output) of the numbers l; if one is
\* refused, of any of those before it.
Write(R) == FirstOf(<<
  IF ~(\E n \in (IF Refused(R.l) THEN 0 ELSE Len(R.l))..Len(Written(R.l)) :
         IsFileOf("1", R.legacy, SubSeq(Written(R.l), 1, n), R.bytes)) THEN "the output is not the events requested" ELSE "",
  IF Refused(R.l) # (R.code # 0) THEN "the exit status is wrong" ELSE "",
  Side(R)>>)
\* A prompt goes on after words that are no numbers, and ends as it likes.
Prompt(R) == FirstOf(<<
  IF ~IsFileOf("1", R.legacy, Written(R.l), R.bytes) THEN "the output is not the events entered" ELSE "",
  Side(R)>>)
\* A file that ends within an event may be refused as a whole.
List(R) == IF Len(R.bytes) % 8 # 0 /\ R.code # 0 /\ R.out = <<>> THEN Side(R) ELSE FirstOf(<<
  IF R.code # 0 THEN "listing failed" ELSE "",
  IF R.fmt # 1 THEN "the list is not one number per line" ELSE "",
  IF Len(R.out) # Len(R.bytes) \div 8 THEN "events are missing from the list or too many" ELSE "",
  IF R.out # Listed(R.legacy, R.bytes) THEN "a time in the list is wrong" ELSE "",
  Side(R)>>)

Clause(R) ==
  IF R.fail # "" THEN R.fail
  ELSE CASE R.kind = "write" -> Write(R)
         [] R.kind = "prompt" -> Prompt(R)
         [] R.kind = "list" -> List(R)
         [] R.kind = "side" -> Side(R)

Init == run \in 1..Len(Runs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED run
        /\ PrintT(<<"END", Runs[run].id, 1, 1, Clause(Runs[run])>>)
Spec == Init /\ [][Next]_vars
=============================================================================
