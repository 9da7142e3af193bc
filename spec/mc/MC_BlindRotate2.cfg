CONSTANTS PV = 17
 N = 2
 LN = 3
 Entries = {0, 1, 9, 16}
SPECIFICATION Spec
INVARIANTS Loop Table
CHECK_DEADLOCK FALSE
