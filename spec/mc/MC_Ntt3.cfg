CONSTANTS K = 3
 P = 17
 Root = 3
 Vals = {0, 67}
SPECIFICATION Spec
INVARIANTS Range FwdOk InvOk
CHECK_DEADLOCK FALSE
