SPECIFICATION Spec
CONSTANTS Ta = 4
 Sep = 4
 R0 = 4
 Rf = 1
 Rho = 2
 TMax = 6
 K = 4
 KD = 64
 Buf = 10
 Lim = 64
 Defect = ""
INVARIANTS Exact Close InBounds Finds Ends
CHECK_DEADLOCK FALSE
