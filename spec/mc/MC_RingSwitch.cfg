CONSTANTS PV = 5
 N = 4
 Ext = 2
SPECIFICATION Spec
INVARIANTS Final
CHECK_DEADLOCK FALSE
