CONSTANTS Threads = {1, 2}
 Good = {1, 2}
 Bad = {3}
 Reqs = 2
 Locked = TRUE
 KeepLock = FALSE
SPECIFICATION Spec
INVARIANTS NoRace Answers Distinct
PROPERTIES Kept Ends
CHECK_DEADLOCK TRUE
