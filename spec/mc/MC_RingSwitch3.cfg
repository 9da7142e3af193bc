CONSTANTS PV = 5
 N = 4
 Ext = 1
SPECIFICATION Spec
INVARIANTS Final
CHECK_DEADLOCK FALSE
