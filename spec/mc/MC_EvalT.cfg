CONSTANTS Threads = {1, 2, 3}
 Vals = {0, 1}
 Shared = FALSE
 Calls = 3
 AllInits = FALSE
SPECIFICATION Spec
INVARIANTS Pure Right
PROPERTIES Untouched
CHECK_DEADLOCK FALSE
