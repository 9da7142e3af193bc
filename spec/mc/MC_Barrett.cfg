CONSTANT B = 6
SPECIFICATION Spec
INVARIANTS LazyRange Congruent
CHECK_DEADLOCK FALSE
