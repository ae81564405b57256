SPECIFICATION Spec
CONSTANTS Alphabet = {43, 45, 48, 50, 57, 120} MaxLen = 4 FMax = 32 W = 128 Num = 17 Den = 10 Defect = "none" Emit = FALSE
INVARIANTS Refusal Acceptance
PROPERTY Decides
CHECK_DEADLOCK FALSE
