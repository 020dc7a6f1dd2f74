SPECIFICATION Spec
CONSTANT N = 20
INVARIANTS AccBounded WantBounded Enabled Steers
PROPERTIES JerkBounded Forward Rest
CHECK_DEADLOCK FALSE
