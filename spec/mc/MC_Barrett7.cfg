CONSTANT B = 7
SPECIFICATION Spec
INVARIANTS LazyRange Congruent
CHECK_DEADLOCK FALSE
