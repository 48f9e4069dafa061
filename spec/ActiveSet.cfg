SPECIFICATION Spec
INVARIANTS TypeOK Independent DualFeasible IsStationary Tight Terminates Solved Refused Progress
PROPERTY Ascends
CHECK_DEADLOCK FALSE
