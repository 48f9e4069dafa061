INIT Init
NEXT Next
INVARIANT TypeOK Pure
CHECK_DEADLOCK FALSE
