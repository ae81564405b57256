----------------------------- MODULE TraceStream ----------------------------
(***************************************************************************)
(* Checks recorded uses of the real streaming readers, writers and         *)
(* programs against module Stream.  Event number j of a file (from 0) has  *)
(* time and pattern that tell j.  A run has                                *)
(*   kind "streams": files of total events of size bytes; streams over     *)
(*        file f with batches of batch events; steps ask stream s (from 1) *)
(*        for the next batch: cnt events from number lo to hi in order     *)
(*        (ordered), end if there was none, bytes read so far by the       *)
(*        process (kB), batches still referred to (held); or begin stream  *)
(*        s again                                                          *)
(*   kind "sink": batches of batch events written to a file: when asked    *)
(*        for batch k (from 1), its size out in events and batches held    *)
(*   kind "program": samples of events read and then events written while  *)
(*        a file is converted, of batches of batch events                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACE).runs
Slack == 96                      \* kB that may be buffered or read for other reasons
S == INSTANCE Stream WITH Streams <- {1}, Total <- 1, Batch <- 1, Ahead <- 2, Defect <- "none",
                          read <- <<0>>, given <- <<0>>, held <- {}, out <- <<0>>
VARIABLES run, k, given, past, bad
\* given: batches handed out per stream; past: kB read for streams begun again
vars == <<run, k, given, past, bad>>

RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
\* kB of g batches and one more
Share(R, s, g) == LET st == R.streams[s] f == R.files[st.f]
                      ev == S!Least((g + 1) * st.batch, f.total)
                  IN (ev * f.size) \div 1000 + 1

Asked(R, s, st) ==
  LET q == R.streams[s.s]  f == R.files[q.f]
      B == S!BatchesOf(f.total, q.batch)
      g == given[s.s] + 1
      allowed == Sum([j \in 1..Len(R.streams) |-> Share(R, j, IF j = s.s THEN g ELSE given[j])], Len(R.streams)) + past + Slack
  IN IF q.told # B THEN "the number of batches told is wrong"
     ELSE IF g > B THEN IF s.end # 1 THEN "a stream goes on after its file" ELSE ""
     ELSE IF s.end = 1 THEN "a stream ended before its file"
     ELSE IF s.ordered # 1 \/ s.cnt # S!SizeOf(f.total, q.batch, g) \/ s.lo # (g - 1) * q.batch \/ s.hi # s.lo + s.cnt - 1
     THEN "a batch has not the events that are next in its file"
     ELSE IF s.kb > allowed THEN "more of a file was read than was asked for"
     ELSE IF s.held > 2 * Len(R.streams) THEN "batches are held that were given back"
     ELSE ""

Sink(R, s) ==
  IF s.held > 3 THEN "batches are held that were written"
  ELSE IF R.grows = 1 /\ s.out < (s.k - 3) * R.batch - (Slack * 1000) \div R.size THEN "batches are not written before others are asked for"
  ELSE ""

Program(R, s) ==
  IF s.in - s.out > 3 * R.batch + (Slack * 1000) \div R.size THEN "much was read of a file before it was written" ELSE ""

Init == run \in 1..Len(Runs) /\ k = 1 /\ bad = "" /\ past = 0
        /\ given = IF Runs[run].kind = "streams" THEN [j \in 1..Len(Runs[run].streams) |-> 0] ELSE <<>>
Next ==
  LET R == Runs[run] IN
  IF k = 0 THEN FALSE
  ELSE IF k > Len(R.steps) \/ bad # ""
  THEN /\ PrintT(<<"END", R.id, Len(R.steps), k, IF bad = "" /\ R.kind # "streams" /\ R.whole # 1 THEN "what went in did not come out whole" ELSE bad>>)
       /\ k' = 0 /\ bad' = "-" /\ UNCHANGED <<run, given, past>>
  ELSE LET s == R.steps[k] IN
       /\ k' = k + 1 /\ UNCHANGED run
       /\ bad' = IF R.kind = "sink" THEN Sink(R, s) ELSE IF R.kind = "program" THEN Program(R, s)
                 ELSE IF s.k = "again" THEN "" ELSE Asked(R, s, k)
       /\ given' = IF R.kind # "streams" THEN given
                   ELSE IF s.k = "again" THEN [given EXCEPT ![s.s] = 0]
                   ELSE IF s.end = 1 THEN given ELSE [given EXCEPT ![s.s] = @ + 1]
       /\ past' = IF R.kind = "streams" /\ s.k = "again" THEN past + Share(R, s.s, given[s.s]) ELSE past
Spec == Init /\ [][Next]_vars
=============================================================================
