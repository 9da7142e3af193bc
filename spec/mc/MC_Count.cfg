INIT Init
NEXT Next
CONSTANTS Threads = {1, 2, 3}
 Ops = 2
 Turns = 3
 Atomic = TRUE
INVARIANTS Bounds Exact Apart
CHECK_DEADLOCK FALSE
