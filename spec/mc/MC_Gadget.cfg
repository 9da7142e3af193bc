CONSTANTS P = 5
 N = 2
 Bits = 1
 E = 0
 Ext = FALSE
 Masks = {0, 2}
 Els = {0, 1, 2, 3, 4}
SPECIFICATION Spec
INVARIANTS DigitsBelow Consumed Exhausted Noise Result
CHECK_DEADLOCK FALSE
