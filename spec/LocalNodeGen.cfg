CONSTANTS Emit = TRUE
 MaxLen = 18
 NCams = 2
 NClouds = 2
 Predicate = TRUE
 Atomic = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
ACTION_CONSTRAINT EmitEdge
