CONSTANTS PV = 17
 LogN = 2
 RootV = 9
 Steps = 2
 Keys = {0, 16}
 E0 = {3, 16}
 E1 = {1}
SPECIFICATION Spec
INVARIANTS Linear TForm Extraction
CHECK_DEADLOCK FALSE
