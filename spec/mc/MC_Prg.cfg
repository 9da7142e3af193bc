SPECIFICATION Spec
CONSTANTS BufBlocks = 2 MaxWord = 60 MaxFill = 70
INVARIANTS ResultsAreStream CursorAgrees
CHECK_DEADLOCK FALSE
