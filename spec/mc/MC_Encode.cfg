CONSTANTS Qs = {2, 4, 8, 16}
 N = 1
SPECIFICATION Spec
INVARIANTS Right ShiftOk
CHECK_DEADLOCK FALSE
