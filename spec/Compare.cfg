SPECIFICATION Spec
VIEW View
INVARIANTS CoherenceLifted NulloptIsEmpty EmptyLeast
PROPERTIES PayloadUsedOnce
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
