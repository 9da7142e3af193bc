CONSTANTS K = 2
 P = 17
 Root = 2
 Steps = 1
 Els = {0, 9, 16}
SPECIFICATION Spec
INVARIANTS Iso Type Laws
CHECK_DEADLOCK FALSE
