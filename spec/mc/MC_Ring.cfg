CONSTANTS K = 1
 P = 5
 Root = 2
 Steps = 2
 Els = {0, 1, 2, 3, 4}
SPECIFICATION Spec
INVARIANTS Iso Type Laws
CHECK_DEADLOCK FALSE
