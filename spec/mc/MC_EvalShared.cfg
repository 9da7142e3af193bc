CONSTANTS Threads = {1, 2}
 Vals = {0, 1, 2}
 Shared = TRUE
 Calls = 2
 AllInits = FALSE
SPECIFICATION Spec
INVARIANTS Pure Right
CHECK_DEADLOCK FALSE
