------------------------------ MODULE TracePlot ------------------------------
(***************************************************************************)
(* Checks recorded runs of fpplot against Plot.                            *)
(***************************************************************************)
EXTENDS Plot, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACE).runs
VARIABLES run, done
vars == <<run, done>>

FirstOf(l) == LET q == SelectSeq(l, LAMBDA x : x # "") IN IF q = <<>> THEN "" ELSE q[1]
Range0(s) == {s[i] : i \in 1..Len(s)}

\* x: correlated events of both sides in 2^-20 ns, pa and pb the chosen ones.
Compare(R, pa, pb) ==
  LET c == Chosen(pa, pb, R.skip, R.hasdur, R.dur) IN 
    IF R.code # 0 THEN "the plot failed"
    ELSE IF R.calls # 1 THEN "there is not one histogram"
    ELSE IF Len(R.x) # Len(c[1]) \/ Len(R.y) # Len(c[2]) THEN "wrong events were chosen"
    ELSE IF \E i \in 1..Len(R.x) : R.x[i] # BShl(c[1][i], 12) THEN "a reference event is wrong"
    ELSE IF \E i \in 1..Len(R.y) : ~IsCompensated(R.y[i], c[2][i], R.time, R.freq) THEN "the compensation of the target is wrong"
    ELSE IF R.width # R.gotwidth THEN "the width of the histogram is wrong"
    ELSE IF R.plotted # 1 THEN "what is plotted is not the histogram"
    ELSE IF R.saved # 1 THEN "the plot was not saved" ELSE ""

Raw(R) == Compare(R, R.a, R.b)
Epochs(R) ==
  LET e == FirstCommon(Range0(R.ea), Range0(R.eb), R.from)
      f == e + R.skipe
      have == \A k \in 0..(R.num - 1) : f + k \in Range0(R.ea) \cap Range0(R.eb)
  IN IF e = -1 \/ ~have THEN IF R.code = 0 \/ R.calls # 0 THEN "missing epochs were plotted" ELSE ""
     ELSE Compare(R, InEpochs(R.a, f, R.num), InEpochs(R.b, f, R.num))

\* With what fpfind found for the same files: of the sampled reference events,
\* enough have a compensated target event that is not further away than the
\* resolution of the search allows.  d: <<time, distance>> in ns and 2^-20 ns.
Loop(R) ==
  LET Near(q) == BLe(BMul(q[2], R.Ts), BMul(BPow2(17), BMulS(BAdd(R.Ts, q[1]), 28 * R.res + 8 * R.jitter + 8)))
  IN FirstOf(<<
    IF R.code # 0 \/ R.calls # 1 THEN "the plot failed" ELSE "",
    IF 100 * Cardinality({i \in 1..Len(R.d) : Near(R.d[i])}) < 25 * Len(R.d)
      THEN "the offsets found do not bring coincidences together" ELSE "">>)

Clause(R) ==
  IF R.fail # "" THEN R.fail
  ELSE CASE R.kind = "raw" -> Raw(R)
         [] R.kind = "epochs" -> Epochs(R)
         [] R.kind = "loop" -> Loop(R)

Init == run \in 1..Len(Runs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED run
        /\ PrintT(<<"END", Runs[run].id, 1, 1, Clause(Runs[run])>>)
Spec == Init /\ [][Next]_vars
=============================================================================
