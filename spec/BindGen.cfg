INIT GInit
NEXT GNext
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
