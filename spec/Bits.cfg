SPECIFICATION Spec
INVARIANT NoValueLost
CHECK_DEADLOCK FALSE
