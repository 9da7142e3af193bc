CONSTANTS PV = 97
 N = 4
 LN = 1
 QVs = {8, 16}
 Steps = {"BrMsKs", "BrKsMs"}
 Luts = {3}
SPECIFICATION Spec
INVARIANTS Result Dims
CHECK_DEADLOCK FALSE
