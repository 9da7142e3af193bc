CONSTANTS PV = 5
 N = 4
 Ext = 4
SPECIFICATION Spec
INVARIANTS Final
CHECK_DEADLOCK FALSE
