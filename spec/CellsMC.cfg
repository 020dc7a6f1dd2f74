SPECIFICATION Spec
CONSTANTS R = 2
Sizes = {1, 2, 4}
INVARIANT Laws
CHECK_DEADLOCK FALSE
