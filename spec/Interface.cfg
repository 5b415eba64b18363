SPECIFICATION Spec
INVARIANT Report
PROPERTY OneValue
CHECK_DEADLOCK FALSE
