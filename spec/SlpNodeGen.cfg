CONSTANTS Emit = TRUE
 MaxLen = 16
 NClouds = 3
 NTicks = 3
 Predicate = TRUE
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
