SPECIFICATION Spec
INVARIANTS QualIrrelevant FlawsRejected OnlyOptionals NamingIsFree NoReferences
CHECK_DEADLOCK FALSE
