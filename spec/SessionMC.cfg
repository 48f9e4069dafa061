SPECIFICATION Spec
INVARIANTS Types Pure Again Known
PROPERTY Stable
CHECK_DEADLOCK FALSE
