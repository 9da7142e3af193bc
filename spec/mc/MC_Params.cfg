CONSTANTS Dims = {0, 1, 2, 3, 4, 6, 8, 12, 16}
 RingMods = {5, 7, 13, 17, 41, 97}
 Mods = {0, 1, 2, 3, 4, 6, 8, 16}
 MaxN = 2
SPECIFICATION Spec
INVARIANTS Exact Keys Back
CHECK_DEADLOCK FALSE
