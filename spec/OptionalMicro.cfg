SPECIFICATION Spec
CONSTANTS
  KindNames = {"full", "nothrow", "plain", "copynx", "mcnx", "manx", "scalar", "triv", "copyonly", "moveonly", "noassign", "immovable", "const", "sconst", "pmoveonly"}
VIEW View
INVARIANTS StorageProtocol Quiescent FaultUsed
PROPERTIES Refinement FlagRefinement
CHECK_DEADLOCK FALSE
