CONSTANTS Qs = {4, 32}
 N = 1
SPECIFICATION Spec
INVARIANTS Right ShiftOk
CHECK_DEADLOCK FALSE
