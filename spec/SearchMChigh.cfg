SPECIFICATION Spec
CONSTANTS Dims <- DimsH
Goals <- GoalsH
Factors = {1, 3}
INVARIANTS Tree Values Answer Optimal Bounded
PROPERTY Ends
CHECK_DEADLOCK FALSE
