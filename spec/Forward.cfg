SPECIFICATION Spec
CONSTANTS MaxArgs = 3
INVARIANTS OneOperation NoExtra OnlyGivenRvalues Destroys
CHECK_DEADLOCK FALSE
