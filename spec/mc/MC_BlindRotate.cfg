CONSTANTS PV = 17
 N = 4
 LN = 2
 Entries = {0, 3, 9}
SPECIFICATION Spec
INVARIANTS Loop Table
CHECK_DEADLOCK FALSE
