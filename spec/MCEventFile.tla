---------------------------- MODULE MCEventFile ----------------------------
(***************************************************************************)
(* Design model of the conversion pipeline: a file is read in batches,     *)
(* every batch is decoded, filtered by pattern and by time, encoded and    *)
(* appended to the output.  Words are small (TB bits of time, one flag     *)
(* bit, two detectors) and kept as two halves whose order the legacy       *)
(* format swaps.  TLC visits every small file, filter, batch size and pair *)
(* of formats; the result must not depend on the batches.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxT, MaxN, Batches, Defect

\* half words: <<high, low>>; low = 8 * (t % 2) + 4 * flag + p
Enc(t, flag, p, legacy) ==
  LET h == t \div 2  l == 8 * (t % 2) + 4 * flag + p
  IN IF legacy THEN <<l, h>> ELSE <<h, l>>
DecT(w, legacy) == LET h == IF legacy THEN w[2] ELSE w[1]
                       l == IF legacy THEN w[1] ELSE w[2]
                   IN 2 * h + (l \div 8)
DecP(w, legacy) == LET l == IF legacy THEN w[1] ELSE w[2]
                   IN IF Defect = "flags" THEN l % 8 ELSE l % 4
And2(p, q) == LET b(x, k) == (x \div 2^k) % 2 IN b(p, 0) * b(q, 0) + 2 * b(p, 1) * b(q, 1)
Keeps(f, p) == CASE f.pat = -1 -> TRUE
                 [] ~f.mask /\ ~f.inv -> p = f.pat
                 [] ~f.mask /\ f.inv  -> p # f.pat
                 [] f.mask /\ ~f.inv  -> And2(p, f.pat) # 0
                 [] f.mask /\ f.inv   -> p = 0 \/ p - And2(p, f.pat) # 0
Becomes(f, p) == CASE f.pat = -1 \/ ~f.mask -> p
                   [] f.mask /\ ~f.inv -> And2(p, f.pat)
                   [] f.mask /\ f.inv  -> p - And2(p, f.pat)

Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i].t <= s[i + 1].t
Ev == [t : 0..MaxT, p : 0..3]
Filters == {[pat |-> -1, mask |-> FALSE, inv |-> FALSE]}
           \cup [pat : {1, 3}, mask : BOOLEAN, inv : BOOLEAN]

VARIABLES ev, lin, lout, f, lo, hi, batch, pos, out, nb
vars == <<ev, lin, lout, f, lo, hi, batch, pos, out, nb>>

Init ==
  /\ ev \in {s \in UNION {[1..n -> Ev] : n \in 0..MaxN} : Sorted(s)}
  /\ lin \in BOOLEAN /\ lout \in BOOLEAN
  /\ f \in Filters /\ lo \in -1..MaxT /\ hi \in -1..MaxT
  /\ batch \in Batches
  /\ pos = 0 /\ out = <<>> /\ nb = 0

\* the file; flags depend on the position only
File == [i \in 1..Len(ev) |-> Enc(ev[i].t, i % 2, ev[i].p, lin)]

Announced == IF Defect = "announce" THEN Len(ev) \div batch + 1
             ELSE ((Len(ev) - 1) \div batch) + 1

\* binary search of the first kept and the first later event of a batch
TimeMask(s) ==
  LET n == Len(s)
      i == IF lo = -1 THEN 0
           ELSE Cardinality({k \in 1..n : IF Defect = "exclusive" THEN s[k].t <= lo ELSE s[k].t < lo})
      j == IF hi = -1 THEN n ELSE Cardinality({k \in 1..n : s[k].t <= hi})
  IN {k \in 1..n : i < k /\ k <= j}

Step ==
  /\ pos < Len(ev)
  /\ LET m   == IF pos + batch <= Len(ev) THEN batch ELSE Len(ev) - pos
         raw == IF Defect = "dropshort" /\ m < batch /\ pos > 0 THEN <<>> ELSE SubSeq(File, pos + 1, pos + m)
         dec == [i \in 1..Len(raw) |-> [t |-> DecT(raw[i], lin), p |-> DecP(raw[i], lin)]]
         sel == LET F[i \in 0..Len(dec)] ==
                      IF i = 0 THEN <<>>
                      ELSE IF Keeps(f, dec[i].p) THEN Append(F[i-1], [t |-> dec[i].t, p |-> Becomes(f, dec[i].p)]) ELSE F[i-1]
                IN F[Len(dec)]
         tk  == TimeMask(IF Defect = "premask" THEN SubSeq(dec, 1, Len(sel)) ELSE sel)
         ks  == LET G[i \in 0..Len(sel)] ==
                      IF i = 0 THEN <<>> ELSE IF i \in tk THEN Append(G[i-1], sel[i]) ELSE G[i-1]
                IN G[Len(sel)]
     IN out' = out \o [i \in 1..Len(ks) |-> Enc(ks[i].t, 0, ks[i].p, IF Defect = "legacy" THEN lin ELSE lout)]
  /\ pos' = IF pos + batch <= Len(ev) THEN pos + batch ELSE Len(ev)
  /\ nb' = nb + 1
  /\ UNCHANGED <<ev, lin, lout, f, lo, hi, batch>>
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

Expected ==
  LET K(e) == Keeps(f, e.p) /\ (lo # -1 => e.t >= lo) /\ (hi # -1 => e.t <= hi)
      F[i \in 0..Len(ev)] ==
        IF i = 0 THEN <<>>
        ELSE IF K(ev[i]) THEN Append(F[i-1], Enc(ev[i].t, 0, Becomes(f, ev[i].p), lout)) ELSE F[i-1]
  IN F[Len(ev)]
Whole == pos = Len(ev) => out = Expected
Batched == pos = Len(ev) => (Len(ev) = 0 \/ nb = Announced)
Ends == <>(pos = Len(ev))
=============================================================================
