SPECIFICATION Spec
CONSTANTS MaxT = 2 MaxN = 2 Batches = {1, 2} Defect = "none"
INVARIANTS Whole Batched
CHECK_DEADLOCK FALSE
