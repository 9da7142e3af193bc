SPECIFICATION Spec
CONSTANTS Q = 3
 NA = 1
 R = 3
 Reuse = TRUE
 Gap = 1
INVARIANTS Uniform
CHECK_DEADLOCK FALSE
