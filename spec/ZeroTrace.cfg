INIT Init
NEXT Next
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
