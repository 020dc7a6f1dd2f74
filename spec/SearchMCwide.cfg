SPECIFICATION Spec
CONSTANTS Dims <- DimsW
Goals <- GoalsW
Factors = {1, 3}
INVARIANTS Tree Values Answer Optimal Bounded
CHECK_DEADLOCK FALSE
