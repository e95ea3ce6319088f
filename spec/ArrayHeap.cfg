CONSTANTS N = 3
MaxLen = 2
Vals = {0, 1}
SPECIFICATION Spec
INVARIANTS NoLeak NoSharing Lengths Refines
CHECK_DEADLOCK FALSE
