CONSTANT W = 6
SPECIFICATION Spec
INVARIANTS SliceOk RejectOk CountOk
CHECK_DEADLOCK FALSE
