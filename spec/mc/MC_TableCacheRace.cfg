CONSTANTS Threads = {1, 2}
 Good = {1, 2}
 Bad = {3}
 Reqs = 2
 Locked = FALSE
 KeepLock = FALSE
SPECIFICATION Spec
INVARIANTS NoRace Answers Distinct

CHECK_DEADLOCK TRUE
