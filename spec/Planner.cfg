SPECIFICATION Spec
INVARIANTS TypeOK Fits Sound Complete Best Ends Refusal Schedule
PROPERTY Answered
CHECK_DEADLOCK FALSE
