SPECIFICATION Spec
INVARIANTS TypeOK Agreed
CHECK_DEADLOCK FALSE
