INIT Init
NEXT GNext
CONSTANT D = 30
INVARIANT Emit
CHECK_DEADLOCK FALSE
