SPECIFICATION Spec
INVARIANT RanksOk
CHECK_DEADLOCK FALSE
