CONSTANTS MVal = 4
 N = 1
 Steps = 2
SPECIFICATION Spec
INVARIANTS Linear Reduced
CHECK_DEADLOCK FALSE
