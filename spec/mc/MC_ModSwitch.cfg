CONSTANTS Befores = {3, 5, 7, 8}
 Afters = {2, 4, 8}
 N = 2
SPECIFICATION Spec
INVARIANTS Exists PhaseOk DownOk
CHECK_DEADLOCK FALSE
