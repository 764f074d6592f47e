SPECIFICATION Spec
INVARIANT TypeOK
INVARIANT SentinelWins
INVARIANT AipInPlace
INVARIANT SizeGuarantee
PROPERTY OnlyTricks
CHECK_DEADLOCK FALSE
