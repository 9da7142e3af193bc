CONSTANTS PV = 97
 N = 4
 LN = 1
 QVs = {4, 8, 16, 32}
 Steps = {"BrMsKs", "BrKsMs"}
 Luts = {0, 1, 3}
SPECIFICATION Spec
INVARIANTS Result Dims
CHECK_DEADLOCK FALSE
