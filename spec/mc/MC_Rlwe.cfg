CONSTANTS PV = 5
 LogN = 1
 RootV = 2
 Steps = 2
 Keys = {0, 1, 4}
 E0 = {0, 1, 2, 3, 4}
 E1 = {1, 3}
SPECIFICATION Spec
INVARIANTS Linear TForm Extraction
CHECK_DEADLOCK FALSE
