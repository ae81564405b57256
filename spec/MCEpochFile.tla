---------------------------- MODULE MCEpochFile ----------------------------
(***************************************************************************)
(* Design model of the packed epoch files: a writer packs differences into *)
(* words, the file may be cut at any word and its header may announce any  *)
(* number of events; a reader consumes the words one at a time.  Words     *)
(* have WB bits, differences WD bits, escaped ones XB bits, bases one bit. *)
(* TLC visits every small file, way of encoding it, cut and announcement.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS MaxN, Diffs, Defect

WB == 3
WD == 2
XB == 3
RECURSIVE BitsOf(_, _)
BitsOf(v, w) == IF w = 0 THEN <<>> ELSE Append(BitsOf(v \div 2, w - 1), v % 2)
RECURSIVE Val(_)
Val(s) == IF s = <<>> THEN 0 ELSE 2 * Val(SubSeq(s, 1, Len(s) - 1)) + s[Len(s)]

\* an event: difference, base, written escaped or not
Evs == [d : Diffs, b : {0, 1}, x : BOOLEAN]
OK(e) == (e.d \in {0, 1} \/ e.d >= 2^WD) => e.x
Pack(e) == (IF e.x THEN BitsOf(0, WD) \o BitsOf(e.d, XB) ELSE BitsOf(e.d, WD)) \o <<e.b>>
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Cat(SubSeq(s, 2, Len(s)))

VARIABLES ev, tb, cut, ann, pos, buf, ph, d, out, res
vars == <<ev, tb, cut, ann, pos, buf, ph, d, out, res>>

Stream(e, t) == Cat([i \in 1..Len(e) |-> Pack(e[i])]) \o BitsOf(1, WD) \o <<t>>
NW(e, t) == ((Len(Stream(e, t)) - 1) \div WB) + 1
Padded(e, t) == Stream(e, t) \o [i \in 1..(WB * NW(e, t) - Len(Stream(e, t))) |-> 0]

Init ==
  /\ ev \in {s \in UNION {[1..n -> Evs] : n \in 0..MaxN} : \A i \in 1..Len(s) : OK(s[i])}
  /\ tb \in {0, 1}
  /\ cut \in 0..NW(ev, tb)
  /\ ann \in 0..(MaxN + 1)
  /\ pos = 0 /\ buf = <<>> /\ ph = "diff" /\ d = 0 /\ out = <<>> /\ res = "run"

Need == CASE ph = "diff" -> WD [] ph = "ext" -> XB [] OTHER -> 1
Short == Len(buf) < Need
Same == UNCHANGED <<ev, tb, cut, ann>>

\* one more word; at the end of the file an error
Load ==
  /\ res = "run" /\ Short
  /\ IF pos < cut
     THEN /\ buf' = buf \o SubSeq(Padded(ev, tb), WB * pos + 1, WB * (pos + 1))
          /\ pos' = pos + 1 /\ res' = res
     ELSE IF Defect = "eofzero"
     THEN buf' = buf \o [i \in 1..WB |-> 0] /\ pos' = pos /\ res' = res
     ELSE res' = "error" /\ UNCHANGED <<buf, pos>>
  /\ Same /\ UNCHANGED <<ph, d, out>>

Field == Val(SubSeq(buf, 1, Need))
Finish == IF Defect # "nocount" /\ ann # 0 /\ ann # Len(out) THEN "error" ELSE "ok"
Take ==
  /\ res = "run" /\ ~Short
  /\ buf' = SubSeq(buf, Need + 1, Len(buf))
  /\ CASE ph = "diff" ->
            /\ ph' = IF Field = 0 THEN "ext" ELSE IF Field = 1 THEN "tbase" ELSE "base"
            /\ d' = Field /\ UNCHANGED <<out, res>>
       [] ph = "ext" ->
            /\ ph' = IF Defect = "extone" /\ Field = 1 THEN "tbase" ELSE "base"
            /\ d' = Field /\ UNCHANGED <<out, res>>
       [] ph = "base" ->
            \* bounded, so that a reader that never ends shows as one
            /\ ph' = "diff" /\ d' = d
            /\ out' = IF Len(out) > MaxN + 2 THEN out ELSE Append(out, <<d, Field>>)
            /\ res' = res
       [] ph = "tbase" ->
            /\ res' = IF Field # 0 /\ Defect # "nobase" THEN "error" ELSE Finish
            /\ UNCHANGED <<ph, d, out>>
  /\ Same /\ pos' = pos

Next == Load \/ Take
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Events == [i \in 1..Len(ev) |-> <<ev[i].d, ev[i].b>>]
Whole == cut = NW(ev, tb)
Sound == res = "ok" => out = Events /\ Whole /\ tb = 0 /\ ann \in {0, Len(ev)}
Complete == res = "error" => ~(Whole /\ tb = 0 /\ ann \in {0, Len(ev)})
Prefix == \A i \in 1..Len(out) : i <= Len(ev) => out[i] = Events[i]
Ends == <>(res # "run")
=============================================================================
