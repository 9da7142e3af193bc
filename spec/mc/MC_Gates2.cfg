CONSTANTS QV = 16
 N = 16
 MsErr = 0
 OutErr = 0
 InErr = 0
 Wires = 4
SPECIFICATION Spec
INVARIANTS Correct Small
CHECK_DEADLOCK FALSE
