------------------------------- MODULE Endure -------------------------------
(***************************************************************************)
(* freqcd for days: what it holds on to and when it works.  Events and     *)
(* corrections arrive, whole or in parts; it wakes up only if there is     *)
(* something to read, every time it reads what there is (a buffer at       *)
(* most), and afterwards has no more memory and files than before.  An end *)
(* of corrections is seen once.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Buf, Steps, Defect

VARIABLES
  inq, fq,      \* bytes that can be read
  freq,         \* corrections: "none", "open", "ended" (not seen yet), "over"
  part, fpart,  \* bytes kept for later
  mem, files,   \* held
  turns,        \* turns since something arrived
  n
vars == <<inq, fq, freq, part, fpart, mem, files, turns, n>>
Least(a, b) == IF a < b THEN a ELSE b

Init == inq = 0 /\ fq = 0 /\ freq \in {"none", "open"} /\ part = 0 /\ fpart = 0 /\ mem = 1 /\ files = 1 /\ turns = 0 /\ n = 0

Arrive ==
  /\ n < Steps /\ n' = n + 1 /\ turns' = 0 /\ UNCHANGED <<part, fpart, mem, files>>
  /\ \/ \E b \in {1, 2, 2 * Buf} : inq' = inq + b /\ UNCHANGED <<fq, freq>>
     \/ freq = "open" /\ \E b \in {1, 2 * Buf} : fq' = fq + b /\ UNCHANGED <<inq, freq>>
     \/ freq = "open" /\ freq' = "ended" /\ UNCHANGED <<inq, fq>>

Awake == \/ inq > 0 \/ fq > 0 \/ freq = "ended"
         \/ Defect = "part" /\ part > 0
Turn ==
  /\ Awake
  /\ turns' = Least(turns + 1, 50) /\ UNCHANGED n
  /\ LET r == Least(inq, Buf)
         f == IF freq \in {"open", "ended"} THEN Least(fq, Buf - fpart) ELSE 0
     IN /\ inq' = inq - r /\ part' = (part + r) % 2
        /\ fq' = fq - f
        \* a line that fills the buffer is dropped
        /\ fpart' = IF Defect = "full" THEN fpart + f ELSE IF fpart + f = Buf THEN 0 ELSE (fpart + f) % 3
        /\ freq' = IF freq = "ended" /\ fq = 0 /\ Defect # "end" THEN "over" ELSE freq
        /\ mem' = IF Defect = "leak" THEN mem + r ELSE mem
        /\ files' = IF Defect = "reopen" /\ freq = "ended" /\ fq = 0 THEN files + 1 ELSE files
Next == Arrive \/ Turn
Spec == Init /\ [][Next]_vars /\ WF_vars(Turn)

Constant == mem = 1 /\ files = 1 /\ part < 2 /\ fpart < Buf
\* it falls asleep again, after as many turns as what arrived needs
Few == turns <= 4 * Steps + 2
Asleep == <>[](~Awake)
=============================================================================
