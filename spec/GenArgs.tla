------------------------------ MODULE GenArgs -------------------------------
(***************************************************************************)
(* Calls of freqcd, put together from Steps units, a unit being one option *)
(* or something that is none.  Files A and B have events, C and D          *)
(* corrections, O something else, and the others are not there.            *)
(***************************************************************************)
EXTENDS Args, TLC, Json
CONSTANTS Steps, MaxBad
VARIABLES words, n, bad, told

Good == {
  <<<<45, 120>>>>, <<<<45, 100>>>>, <<<<45, 120, 100>>>>, <<<<45, 100, 120>>>>,                       \* -x -d -xd -dx
  <<<<45, 102>>, <<53>>>>, <<<<45, 102, 49, 50>>>>, <<<<45, 102>>, <<45, 55>>>>, <<<<45, 100, 102>>, <<57>>>>,   \* -f 5, -f12, -f -7, -df 9
  <<<<45, 120, 102, 52>>>>, <<<<45, 120, 100, 102, 45, 51>>>>, <<<<45, 102, 43, 56>>>>,               \* -xf4 -xdf-3 -f+8
  <<<<45, 102>>, <<49, 50, 50, 48, 55, 48, 51>>>>, <<<<45, 102, 45, 50, 48, 57, 55, 49, 53, 49>>>>,   \* -f 1220703, -f-2097151
  <<<<45, 105>>, <<65>>>>, <<<<45, 105, 66>>>>, <<<<45, 120, 105, 65>>>>, <<<<45, 100, 105>>, <<66>>>>,          \* -i A, -iB, -xiA, -di B
  <<<<45, 111>>, <<79>>>>, <<<<45, 111, 80>>>>, <<<<45, 120, 111>>, <<80>>>>, <<<<45, 111>>, <<45, 120>>>>, <<<<45, 111, 45, 100>>>>, \* -o O, -oP, -xo P, -o -x, -o-d
  <<<<45, 70>>, <<67>>>>, <<<<45, 70, 68>>>>, <<<<45, 100, 70>>, <<67>>>>}                            \* -F C, -FD, -dF C
Bad == {
  <<<<45, 45>>>>, <<<<45>>>>, <<<<45, 113>>>>, <<<<45, 120, 113>>>>, <<<<45, 113, 120>>>>, <<<<45, 45, 120>>>>, <<<<45, 45, 104, 101, 108, 112>>>>,  \* -- - -q -xq -qx --x --help
  <<<<45, 104>>>>, <<<<45, 120, 104>>>>, <<<<65>>>>, <<<<>>>>, <<<<45, 102>>>>, <<<<45, 105>>>>, <<<<45, 111>>>>, <<<<45, 70>>>>,   \* -h -xh A (empty) -f -i -o -F
  <<<<45, 102>>, <<>>>>, <<<<45, 105>>, <<>>>>, <<<<45, 111>>, <<>>>>, <<<<45, 70>>, <<>>>>,          \* with empty arguments
  <<<<45, 102>>, <<53, 120>>>>, <<<<45, 102, 120>>>>, <<<<45, 102, 50, 48, 57, 55, 49, 53, 50>>>>,    \* -f 5x, -fx, -f2097152
  <<<<45, 105>>, <<78>>>>, <<<<45, 70>>, <<78>>>>, <<<<45, 102, 58>>>>, <<<<45, 58>>>>, <<<<45, 120, 45>>>>, <<<<45, 63>>>>}   \* -i N, -F N, -f:, -:, -x-, -?

Init == words = <<>> /\ n = 0 /\ bad = 0 /\ told = FALSE
Next == /\ n < Steps /\ n' = n + 1 /\ UNCHANGED told
        /\ \/ \E u \in Good : words' = words \o u /\ UNCHANGED bad
           \/ bad < MaxBad /\ \E u \in Bad : words' = words \o u /\ bad' = bad + 1
Tell == n = Steps /\ ~told /\ told' = TRUE /\ UNCHANGED <<words, n, bad>> /\ PrintT(<<"CASE", ToJson(words)>>)
Spec == Init /\ [][Next \/ Tell]_<<words, n, bad, told>>
=============================================================================
