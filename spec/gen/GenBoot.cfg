INIT Init
NEXT GNext
CONSTANT D = 14
INVARIANT Emit
CHECK_DEADLOCK FALSE
