CONSTANT Top = 63
SPECIFICATION Spec
INVARIANTS Lines Final Bounded
CHECK_DEADLOCK FALSE
