CONSTANT WordBits = {4, 6, 8}
SPECIFICATION Spec
INVARIANTS Exact Fits Roots
PROPERTY Ends
CHECK_DEADLOCK FALSE
