SPECIFICATION Spec
CONSTANTS Dims <- DimsV
Goals <- GoalsV
Factors = {1, 3}
INVARIANTS Tree Values Answer Optimal Bounded
PROPERTY Ends
CHECK_DEADLOCK FALSE
