INIT Init
NEXT GNext
CONSTANT D = 40
INVARIANT Emit
CHECK_DEADLOCK FALSE
