CONSTANTS P = 5
 N = 2
 Bits = 2
 E = 0
 Ext = TRUE
 Masks = {0, 2}
 Els = {0, 1, 4}
SPECIFICATION Spec
INVARIANTS DigitsBelow Consumed Exhausted Noise Result
CHECK_DEADLOCK FALSE
