CONSTANTS K = 2
 P = 17
 Root = 2
 Vals = {0, 1, 16, 33, 67}
SPECIFICATION Spec
INVARIANTS Range FwdOk InvOk
CHECK_DEADLOCK FALSE
