CONSTANTS QV = 32
 N = 16
 MsErr = 0
 OutErr = 2
 InErr = 1
 Wires = 3
SPECIFICATION Spec
INVARIANTS Correct Small
CHECK_DEADLOCK FALSE
