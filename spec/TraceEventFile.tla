--------------------------- MODULE TraceEventFile ---------------------------
(***************************************************************************)
(* Checks recorded calls of the timestamp file functions and of the        *)
(* parse_timestamps program against module EventFile.  Every case is one   *)
(* call: its arguments, and what it returned, wrote or printed.            *)
(***************************************************************************)
EXTENDS EventFile, FiniteSets, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACE).runs

VARIABLES run, done
vars == <<run, done>>

\* First non-empty text of a sequence.
FirstOf(l) == LET h == SelectSeq(l, LAMBDA x : x # "") IN IF h = <<>> THEN "" ELSE h[1]

\* Compare returned times and patterns with the events e0.
SameArrays(e0, ts0, ps0, res, frac) ==
  IF Len(ts0) # Len(e0) \/ Len(ps0) # Len(e0) THEN "events were lost or added"
  ELSE FoldLeft(LAMBDA a, i :
                  IF a.bad # "" THEN a
                  ELSE IF a.p[i] # a.e[i].p THEN [a EXCEPT !.bad = "a detector pattern is wrong"]
                  ELSE IF a.t[i] # Scaled(a.e[i].t, res, frac) THEN [a EXCEPT !.bad = "a timestamp is wrong"]
                  ELSE a,
                [e |-> e0, t |-> ts0, p |-> ps0, bad |-> ""], [i \in 1..Len(e0) |-> i]).bad

Write(R) ==
  IF IsFileOf(R.fmt, R.legacy, R.e, R.bytes) THEN "" ELSE "the file is not the events' in this format"

Read(R) == SameArrays(Events(R.fmt, R.legacy, R.bytes), R.t, R.p, R.res, R.frac)

SRead(R) ==
  LET nb == Len(R.b)
      n  == Len(R.bytes) \div Width(R.fmt)
      all == FoldLeft(LAMBDA a, x : [t |-> a.t \o x.t, p |-> a.p \o x.p], [t |-> <<>>, p |-> <<>>], R.b)
  IN FirstOf(<<
       IF R.n # nb THEN "the number of batches announced is not the number yielded" ELSE "",
       IF \E i \in 1..nb : Len(R.b[i].t) = 0 THEN "an empty batch was yielded" ELSE "",
       IF \E i \in 1..nb : Len(R.b[i].t) > R.size THEN "a batch is larger than asked for" ELSE "",
       IF \E i \in 1..(nb - 1) : Len(R.b[i].t) # R.size THEN "a batch other than the last is not full" ELSE "",
       SameArrays(Events(R.fmt, R.legacy, R.bytes), all.t, all.p, R.res, R.frac)>>)

PMask(R) ==
  LET f == [pat |-> R.pattern, mask |-> R.mask, inv |-> R.invert]
      n == Len(R.p)
      exp == FoldLeft(LAMBDA a, p : IF PatKeeps(f, p) THEN Append(a, PatBecomes(f, p)) ELSE a, <<>>, R.p)
  IN FirstOf(<<
       IF R.same # 1 THEN "the patterns passed in were changed" ELSE "",
       IF Len(R.m) # n THEN "the mask has the wrong length" ELSE "",
       IF Len(R.m) = n /\ \E i \in 1..n : (R.m[i] = 1) # PatKeeps(f, R.p[i])
         THEN "the pattern filter selects the wrong events" ELSE "",
       IF R.q # exp THEN "the pattern filter returns the wrong patterns" ELSE "">>)

TMask(R) ==
  LET f == [lo |-> R.lo, hi |-> R.hi] IN
  FirstOf(<<
    IF R.same # 1 THEN "the timestamps passed in were changed" ELSE "",
    IF Len(R.m) # Len(R.t) THEN "the mask has the wrong length" ELSE "",
    IF Len(R.m) = Len(R.t) /\ \E i \in 1..Len(R.t) : (R.m[i] = 1) # TimeKeeps(f, R.t[i])
      THEN "the time filter selects the wrong events" ELSE "">>)

\* A conversion: R.e are the input's events, or for huge files those in
\* windows of it (with R.total events expected in the output, of which the
\* windows at known places are compared).
Convert(R) ==
  LET in  == IF R.window = 1 THEN R.e ELSE Events(R.fmt, R.legacy, R.bytes)
      exp == Filtered(in, R.f)
  IN FirstOf(<<
       IF R.code # 0 THEN "the conversion failed" ELSE "",
       IF R.kept # 1 THEN "the input file was changed" ELSE "",
       IF R.extra # 0 THEN "other files were created" ELSE "",
       IF R.total # R.outtotal THEN "events were lost or added" ELSE "",
       IF ~IsFileOf(R.ofmt, R.olegacy, exp, R.obytes) THEN "the output is not the filtered events' in the format asked for" ELSE "">>)

(* Statistics.  Times printed are whole nanoseconds (R.start, R.end, R.dur),
   to be right within one; the rate is a whole number of events per second. *)
Ns256(x) == BShl(x, 8)
Sec256 == BMul(BInt(256000), BInt(1000000))
NearNs(x, t) == BWithin(BSub(Ns256(x), t), BInt(256))
StatClause(R, e) ==
  LET s == Stats(e) IN
  IF R.total # s.n THEN "the number of events is wrong"
  ELSE IF s.n = 0 THEN ""
  ELSE LET D == BSub(e[s.n].t, e[1].t)
           nS == BMul(BInt(s.n), Sec256)
       IN FirstOf(<<
         IF R.ch # s.ch THEN "the events per channel are wrong" ELSE "",
         IF R.mult # s.mult THEN "the events with several channels are wrong" ELSE "",
         IF R.none # s.none THEN "the events with no channel are wrong" ELSE "",
         IF {R.pats[i] : i \in 1..Len(R.pats)} # s.pats \/ Len(R.pats) # Cardinality(s.pats)
            \/ \E i \in 1..(Len(R.pats) - 1) : R.pats[i] >= R.pats[i + 1]
           THEN "the patterns listed are wrong" ELSE "",
         IF ~NearNs(R.start, e[1].t) THEN "the start is wrong" ELSE "",
         IF ~NearNs(R.end, e[s.n].t) THEN "the end is wrong" ELSE "",
         IF ~NearNs(R.dur, D) THEN "the duration is wrong" ELSE "",
         IF D = BZero THEN ""
         ELSE IF R.hasrate = 0 THEN "the event rate is missing"
         ELSE IF BLe(BMul(R.rate, BSub(D, BInt(4))), BAdd(nS, BShr(nS, 30)))
                 /\ BGe(BMul(BAdd(R.rate, BOne), BAdd(D, BInt(4))), BSub(nS, BShr(nS, 30)))
           THEN "" ELSE "the event rate is wrong">>)

Stat(R) ==
  IF R.code # 0 THEN "the statistics failed"
  ELSE IF R.parsed # 1 THEN "the report is not readable"
  ELSE StatClause(R, Filtered(IF R.window = 1 THEN R.e ELSE Events(R.fmt, R.legacy, R.bytes), R.f))

Clause(R) ==
  IF R.fail # "" THEN R.fail
  ELSE CASE R.kind = "write" -> Write(R)
         [] R.kind = "read"  -> Read(R)
         [] R.kind = "sread" -> SRead(R)
         [] R.kind = "pmask" -> PMask(R)
         [] R.kind = "tmask" -> TMask(R)
         [] R.kind = "convert" -> Convert(R)
         [] R.kind = "stat" -> Stat(R)

Size(R) == IF R.fail # "" THEN 0 ELSE CASE R.kind \in {"write"} -> Len(R.e)
             [] R.kind = "read" -> Len(R.t)
             [] R.kind \in {"pmask", "tmask"} -> Len(R.m)
             [] OTHER -> 1

Init == run \in 1..Len(Runs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED run
        /\ PrintT(<<"END", Runs[run].id, Size(Runs[run]), 1, Clause(Runs[run])>>)
Spec == Init /\ [][Next]_vars
=============================================================================
