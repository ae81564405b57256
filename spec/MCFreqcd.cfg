SPECIFICATION Spec
CONSTANTS TB = 6 T1 = 1 T2 = 3 Gaps = {0, 3, 25} Fs <- FsSmall MaxEvents = 4 MaxUpd = 1 Defect = "none"
INVARIANTS TypeOK Complete Corrected InRange Agree
PROPERTY Stable
CHECK_DEADLOCK FALSE
