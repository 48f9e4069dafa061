SPECIFICATION Spec
CONSTANT SharedWorkspace = FALSE
INVARIANT Types
INVARIANT Pure
PROPERTY Refines
PROPERTY Serial
PROPERTY Ends
CHECK_DEADLOCK FALSE
