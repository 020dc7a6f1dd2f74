CONSTANTS Fine = 6
 Emit = TRUE
 MaxLen = 3
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
