CONSTANTS P = 5
 N = 2
 Bits = 1
 E = 1
 Ext = TRUE
 Masks = {2}
 Els = {1, 4}
SPECIFICATION Spec
INVARIANTS DigitsBelow Consumed Exhausted Noise Result
CHECK_DEADLOCK FALSE
