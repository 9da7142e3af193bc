CONSTANTS MVal = 3
 N = 2
 Steps = 1
SPECIFICATION Spec
INVARIANTS Linear Reduced
CHECK_DEADLOCK FALSE
