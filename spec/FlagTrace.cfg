SPECIFICATION TSpec
CONSTANT Cells <- CellRange
INVARIANT TypeOk
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
