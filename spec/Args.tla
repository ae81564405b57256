-------------------------------- MODULE Args --------------------------------
(***************************************************************************)
(* What the words of a call of freqcd ask for.  A word is a sequence of    *)
(* character codes.  Options are letters behind a dash; several may share  *)
(* one; i, o, F and f have an argument, the rest of the word or else the   *)
(* next one, whatever it looks like.  They may come in any order, and the  *)
(* last of a kind counts.  A lone "--" may end them.  There is nothing     *)
(* but options: a call with anything else, with an argument missing, empty *)
(* or not a number, or with h, is not one that corrects events.            *)
(***************************************************************************)
EXTENDS Integers, Sequences

N == INSTANCE FreqArg WITH Sat <- 100000000

Dash == 45
Takes == {105, 111, 70, 102}          \* i o F f
Flags == {120, 100}                   \* x d

\* Nothing given: standard input and output, no corrections.
Blank == [res |-> "run", i |-> <<>>, o |-> <<>>, F |-> <<>>, f |-> <<>>, x |-> 0, d |-> 0]
Stop(c) == [c EXCEPT !.res = "stop"]

Given(c, l, arg) ==
  IF arg = <<>> \/ (l = 102 /\ ~N!Accepted(arg, 99999999)) THEN Stop(c)
  ELSE IF l = 105 THEN [c EXCEPT !.i = arg]
  ELSE IF l = 111 THEN [c EXCEPT !.o = arg]
  ELSE IF l = 70 THEN [c EXCEPT !.F = arg]
  ELSE [c EXCEPT !.f = arg]

RECURSIVE Word(_, _, _), All(_, _)
\* Letters w of a word, then the words that follow it.
Word(c, w, rest) ==
  IF w = <<>> THEN All(c, rest)
  ELSE IF w[1] \in Takes
  THEN IF Len(w) > 1 THEN All(Given(c, w[1], SubSeq(w, 2, Len(w))), rest)
       ELSE IF rest = <<>> THEN Stop(c)
       ELSE All(Given(c, w[1], rest[1]), SubSeq(rest, 2, Len(rest)))
  ELSE IF w[1] = 120 THEN Word([c EXCEPT !.x = 1], SubSeq(w, 2, Len(w)), rest)
  ELSE IF w[1] = 100 THEN Word([c EXCEPT !.d = 1], SubSeq(w, 2, Len(w)), rest)
  ELSE Stop(c)
All(c, words) ==
  IF c.res = "stop" \/ words = <<>> THEN c
  ELSE LET w == words[1]  rest == SubSeq(words, 2, Len(words)) IN
       IF w = <<Dash, Dash>> THEN IF rest = <<>> THEN c ELSE Stop(c)
       ELSE IF Len(w) < 2 \/ w[1] # Dash THEN Stop(c)
       ELSE Word(c, SubSeq(w, 2, Len(w)), rest)

\* Corrections are in units of 2^-34, below 2^21; decimal ones in units of
\* 10^-10, so their magnitude must be below 2^21 * 10^10 / 2^34.
Limit(d) == IF d = 1 THEN 1220703 ELSE 2097151

Parse(words) ==
  LET c == All(Blank, words) IN
  IF c.res = "run" /\ c.f # <<>> /\ ~N!Accepted(c.f, Limit(c.d)) THEN Stop(c) ELSE c
=============================================================================
