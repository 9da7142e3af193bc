CONSTANTS Threads = {1, 2}
 Good = {1, 2}
 Bad = {3}
 Reqs = 1
 Locked = TRUE
 KeepLock = TRUE
SPECIFICATION Spec
INVARIANTS NoRace Answers Distinct

CHECK_DEADLOCK TRUE
