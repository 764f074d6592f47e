SPECIFICATION Spec
INVARIANTS NothrowImpliesAvailable ImplicitImpliesExplicit CopyImpliesMove ConstImmutable
PROPERTY Monotonic
CHECK_DEADLOCK FALSE
