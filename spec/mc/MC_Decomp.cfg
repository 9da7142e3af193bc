CONSTANT Top = 70
SPECIFICATION Spec
INVARIANTS Below Exact Enough NeedAll
CHECK_DEADLOCK FALSE
