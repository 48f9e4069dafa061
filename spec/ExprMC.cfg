INIT Init
NEXT Next
CONSTRAINT Explored
INVARIANT Group
INVARIANT Steps
CHECK_DEADLOCK FALSE
