INIT TInit
NEXT TNext
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
