CONSTANTS K = 1
 P = 5
 Root = 2
 Vals = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19}
SPECIFICATION Spec
INVARIANTS Range FwdOk InvOk
CHECK_DEADLOCK FALSE
