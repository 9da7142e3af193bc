INIT Init
NEXT GNext
CONSTANT D = 24
INVARIANT Emit
CHECK_DEADLOCK FALSE
