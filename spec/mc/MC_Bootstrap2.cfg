CONSTANTS PV = 97
 N = 2
 LN = 2
 QVs = {4, 8}
 Steps = {"BrMs", "BrMsKs", "BrKsMs"}
 Luts = {1}
SPECIFICATION Spec
INVARIANTS Result Dims
CHECK_DEADLOCK FALSE
