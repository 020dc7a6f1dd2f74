SPECIFICATION Spec
CONSTANTS N = 3
Forget = {"map", "par"}
INVARIANTS Fresh Consistent
CHECK_DEADLOCK FALSE
