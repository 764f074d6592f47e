SPECIFICATION Spec
INVARIANT Truthful
CHECK_DEADLOCK FALSE
