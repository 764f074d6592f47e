SPECIFICATION Spec
CONSTANTS
  KindNames = {"full", "nothrow", "plain", "copynx", "mcnx", "manx", "scalar", "triv", "copyonly", "moveonly", "noassign", "immovable", "const", "sconst", "pmoveonly"}
  Ops <- AllOps
VIEW View
INVARIANT TypeOk
PROPERTIES Frame FailSafe MovedFromEngaged
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
