CONSTANTS Emit = TRUE
 Good = FALSE
 MaxLen = 7
SPECIFICATION Spec
VIEW GenView
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
