SPECIFICATION Spec
CONSTANTS Q = 3
 NA = 1
 R = 3
 Reuse = FALSE
 Gap = 1
INVARIANTS NoReuse Full Uniform TallySelf ExtremesSelf
CHECK_DEADLOCK FALSE
