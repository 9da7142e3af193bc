CONSTANTS QV = 8
 RN = 2
 SN = 1
 Bits = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS Loop Final
CHECK_DEADLOCK FALSE
