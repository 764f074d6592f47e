SPECIFICATION Spec
CONSTANT Threads = {1, 2, 3}
INVARIANTS NoRace NoStatic
CHECK_DEADLOCK FALSE
