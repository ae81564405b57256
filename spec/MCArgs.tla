------------------------------- MODULE MCArgs -------------------------------
(***************************************************************************)
(* Design model of reading the words letter by letter, with one position   *)
(* in the current word and one in the list of words, each option taking    *)
(* effect as it is met.  For every list of words it ends with what module  *)
(* Args says the list asks for.                                            *)
(***************************************************************************)
EXTENDS Args, TLC
CONSTANTS MaxWords, Defect
\* Defects: prefix ("--" and more ends the options), unknown, stray and
\* missing (such things ignored), first (the first of a kind counts), order
\* (d is for the f after it), single (one letter per word), stale (a missing
\* argument is the last one again), dashed (an argument is no option)
VARIABLES words, at, pos, c, st, last, early
vars == <<words, at, pos, c, st, last, early>>

\* x, d, xd, f, i, f5, xf, df7, i-x, --, -, -q, --x, 5, -5, h, (empty), a
Vocabulary == {<<45, 120>>, <<45, 100>>, <<45, 120, 100>>, <<45, 102>>, <<45, 105>>, <<45, 102, 53>>, <<45, 120, 102>>, <<45, 100, 102, 55>>,
               <<45, 105, 45, 120>>, <<45, 45>>, <<45>>, <<45, 113>>, <<45, 45, 120>>, <<53>>, <<45, 53>>, <<45, 104>>, <<>>, <<97>>}

Init == /\ words \in UNION {[1..n -> Vocabulary] : n \in 0..MaxWords}
        /\ at = 1 /\ pos = 0 /\ c = Blank /\ st = "word" /\ last = <<>> /\ early = FALSE

W == words[at]
Is(d) == Defect = d
End(res) == st' = "end" /\ c' = [c EXCEPT !.res = res] /\ UNCHANGED <<at, pos, last, early>>

StartWord == st = "word" /\ UNCHANGED words /\
  IF at > Len(words) THEN End("run")
  ELSE IF Len(W) >= 2 /\ W[1] = Dash /\ W[2] = Dash
  THEN IF Is("prefix") THEN End("run")
       ELSE IF Len(W) = 2 /\ at = Len(words) THEN End("run") ELSE End("stop")
  ELSE IF Len(W) < 2 \/ W[1] # Dash THEN End(IF Is("stray") THEN "run" ELSE "stop")
  ELSE st' = "letter" /\ pos' = 2 /\ UNCHANGED <<at, c, last, early>>

\* After a letter without argument: the next one, or the next word.
Onward == IF pos < Len(W) /\ ~Is("single") THEN pos' = pos + 1 /\ UNCHANGED <<at, st>>
          ELSE at' = at + 1 /\ pos' = 0 /\ st' = "word"

Letter == st = "letter" /\ UNCHANGED words /\
  LET l == W[pos] IN
  IF l = 104 THEN End("stop")
  ELSE IF l = 120 THEN c' = [c EXCEPT !.x = 1] /\ Onward /\ UNCHANGED <<last, early>>
  ELSE IF l = 100 THEN c' = [c EXCEPT !.d = 1] /\ Onward /\ UNCHANGED <<last, early>>
  ELSE IF l \notin Takes THEN IF Is("unknown") THEN Onward /\ UNCHANGED <<c, last, early>> ELSE End("stop")
  ELSE st' = "argument" /\ UNCHANGED <<at, pos, c, last, early>>

Take(l, arg) ==
  /\ last' = arg
  /\ IF arg = <<>> \/ (l = 102 /\ ~N!Accepted(arg, 99999999)) THEN st' = "end" /\ c' = Stop(c) /\ UNCHANGED early
     ELSE /\ st' = "word"
          /\ early' = IF l = 102 /\ Is("order") THEN c.d = 0 ELSE early
          /\ c' = IF l = 102 THEN IF Is("first") /\ c.f # <<>> THEN c ELSE [c EXCEPT !.f = arg]
                  ELSE IF Is("first") /\ c.i # <<>> THEN c ELSE [c EXCEPT !.i = arg]

Argument == st = "argument" /\ UNCHANGED words /\
  LET l == W[pos] IN
  IF pos < Len(W) THEN Take(l, SubSeq(W, pos + 1, Len(W))) /\ at' = at + 1 /\ pos' = 0
  ELSE IF at = Len(words) \/ (Is("dashed") /\ words[at + 1] # <<>> /\ words[at + 1][1] = Dash)
  THEN IF Is("missing") /\ at = Len(words) THEN End("run")
       ELSE IF Is("stale") /\ last # <<>> THEN Take(l, last) /\ at' = at + 1 /\ pos' = 0
       ELSE End("stop")
  ELSE Take(l, words[at + 1]) /\ at' = at + 2 /\ pos' = 0

Range == st = "end" /\ st' = "done" /\ UNCHANGED <<words, at, pos, last, early>> /\
  c' = [c EXCEPT !.res = IF c.res = "run" /\ c.f # <<>> /\ ~N!Accepted(c.f, Limit(c.d)) THEN "stop" ELSE c.res,
                 !.d = IF early THEN 0 ELSE c.d]

Next == StartWord \/ Letter \/ Argument \/ Range
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Agrees == st = "done" => LET p == Parse(words) IN c.res = p.res /\ (p.res = "run" => c = p)
Ends == <>(st = "done")
=============================================================================
