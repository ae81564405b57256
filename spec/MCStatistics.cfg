SPECIFICATION Spec
CONSTANTS N = 4
 Top = 2
 Show = FALSE
 Defect = ""
INVARIANTS Centre Covers Apart Tails Scaled Turns Ranks
CHECK_DEADLOCK FALSE
