SPECIFICATION Spec
INVARIANTS NeverInconsistent OnlyIllegalFails IllegalFails
CHECK_DEADLOCK FALSE
