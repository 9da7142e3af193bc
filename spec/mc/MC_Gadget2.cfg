CONSTANTS P = 17
 N = 2
 Bits = 2
 E = 1
 Ext = FALSE
 Masks = {3}
 Els = {1, 5, 16}
SPECIFICATION Spec
INVARIANTS DigitsBelow Consumed Exhausted Noise Result
CHECK_DEADLOCK FALSE
