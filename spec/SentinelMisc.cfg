SPECIFICATION Spec
INVARIANT ExactlySentinel
CHECK_DEADLOCK FALSE
