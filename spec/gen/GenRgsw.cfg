INIT Init
NEXT GNext
CONSTANT D = 20
INVARIANT Emit
CHECK_DEADLOCK FALSE
