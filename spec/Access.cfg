SPECIFICATION Spec
INVARIANTS ConstStays RvalueOnlyFromRvalue MutatorsNeedMutable
CHECK_DEADLOCK FALSE
