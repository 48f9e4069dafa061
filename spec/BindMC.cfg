SPECIFICATION Spec
INVARIANTS Refs Alive
PROPERTIES Results Copies Frame
CHECK_DEADLOCK FALSE
