-------------------------------- MODULE Plot --------------------------------
(***************************************************************************)
(* What fpplot correlates: the chosen events of both clocks on a common    *)
(* origin, the target compensated as fpfind reports it,                    *)
(*     t |-> (t - time) / (1 + freq).                                      *)
(* Events are in 1/256 ns, results in units of 2^-20 ns, freq in 2^-34.    *)
(***************************************************************************)
EXTENDS ClockArrays

EpochOf(t) == BToInt(BShr(t, 37))
\* First epoch of both sides from `from' on; -1 if there is none.
FirstCommon(EA, EB, from) ==
  LET C == {e \in EA \cap EB : e >= from} IN IF C = {} THEN -1 ELSE CHOOSE e \in C : \A f \in C : e <= f
InEpochs(ts, e, n) == SelectSeq(ts, LAMBDA t : LET k == EpochOf(t) IN e <= k /\ k < e + n)

\* Both sides as they are correlated, before the compensation.
Chosen(a, b, skip, hasdur, dur) ==
  LET w == Normalised(<<a, b>>, skip, 1)
  IN <<Window(w[1], 1, BZero, hasdur, dur), Window(w[2], 1, BZero, hasdur, dur)>>

\* Is x (2^-20 ns) the event t (1/256 ns) after compensation?
IsCompensated(x, t, time, freq) ==
  BWithin(BSub(BAdd(x, BAsr(BMul(x, freq), 34)), BSub(BShl(t, 12), BShl(time, 12))), BPow2(10))
=============================================================================
