SPECIFICATION Spec
CONSTANT Arch = "x64"
INVARIANT ExactlySentinel
INVARIANT Representable
INVARIANT SpellingIrrelevant
CHECK_DEADLOCK FALSE
