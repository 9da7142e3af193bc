CONSTANTS QV = 128
 N = 16
 MsErr = 1
 OutErr = 1
 InErr = 2
 Wires = 2
SPECIFICATION Spec
INVARIANTS Correct Small
CHECK_DEADLOCK FALSE
