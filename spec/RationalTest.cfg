INIT Init
NEXT Next
INVARIANTS Scalars Vectors
CHECK_DEADLOCK FALSE
