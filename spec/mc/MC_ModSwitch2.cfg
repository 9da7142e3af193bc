CONSTANTS Befores = {17, 16, 32, 64}
 Afters = {2, 8, 16, 32}
 N = 1
SPECIFICATION Spec
INVARIANTS Exists PhaseOk DownOk
CHECK_DEADLOCK FALSE
