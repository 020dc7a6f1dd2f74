CONSTANTS Emit = FALSE
 MaxLen = 0
 NCams = 2
 NClouds = 2
 Predicate = TRUE
 Atomic = TRUE
SPECIFICATION Spec
INVARIANTS CycleIsLegal MechanismIsPossible SettledOk
PROPERTIES Transformed Planning
CHECK_DEADLOCK FALSE
