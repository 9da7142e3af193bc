CONSTANTS Threads = {1, 2}
 Vals = {0, 1, 2}
 Shared = FALSE
 Calls = 2
 AllInits = TRUE
SPECIFICATION Spec
INVARIANTS Pure Right
PROPERTIES Untouched
CHECK_DEADLOCK FALSE
