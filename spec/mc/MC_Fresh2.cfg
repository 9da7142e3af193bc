SPECIFICATION Spec
CONSTANTS Q = 2
 NA = 2
 R = 3
 Reuse = FALSE
 Gap = 2
INVARIANTS NoReuse Full Uniform TallySelf ExtremesSelf
CHECK_DEADLOCK FALSE
