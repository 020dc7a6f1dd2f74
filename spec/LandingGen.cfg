CONSTANTS Emit = TRUE
 MaxLen = 4
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
